------------------------------- MODULE Methods ------------------------------
(***************************************************************************)
(* Methods (src/method): courses, labels, classification and titles.       *)
(* A method is [title, name, n, rows, labels]: the rows of its first lead  *)
(* (the last of which is the lead head) and a label per row of the lead.   *)
(***************************************************************************)
EXTENDS Notation, Blocks

NoLabel       == None
LabelLeadEnd  == Some(T("LE"))
MethodOf(title, name, n, rows, labels) ==
  [title |-> title, name |-> name, n |-> n, rows |-> rows, labels |-> labels]
LeadLen(m)    == Len(m.labels)
LeadHead(m)   == m.rows[Len(m.rows)]
MethodInfo(m) == [title |-> m.title, name |-> m.name, n |-> m.n, len |-> LeadLen(m),
                  head |-> LeadHead(m), rows |-> m.rows, labels |-> m.labels]
MethodOk(m)   == BlkOk(Blk(m.n, m.rows, m.labels))

\* The row at any index of the infinite plain course
CourseRow(m, x) == Mul(PowU(LeadHead(m), x \div LeadLen(m)), m.rows[(x % LeadLen(m)) + 1])
\* The number of leads of the plain course: the order of the lead head
NumLeads(m) == Len(Closure(LeadHead(m)))
\* The plain course, as a block annotated by positions in the lead and labels
PlainCourse(m) ==
  LET n     == LeadLen(m)
      heads == ClosureFromRounds(LeadHead(m))
  IN  [rows |-> Concat([k \in 1..Len(heads) |-> Transposed(heads[k], SubSeq(m.rows, 1, n))])
                \o <<Rounds(m.n)>>,
       an   |-> Concat([k \in 1..Len(heads) |-> [i \in 1..n |-> [x |-> i - 1, l |-> m.labels[i]]]])]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Classification by the Framework for Method Ringing, from the rows of a  *)
(* first lead (which starts from rounds).                                  *)
(***************************************************************************)
Principle == 0  Place == 1  Bob == 2  TrebleBob == 3  Delight == 4  Surprise == 5
TreblePlace == 6  Alliance == 7  Hybrid == 8

\* The path of the place bell b through the lead
LeadPath(rows, b) == [i \in 1..(Len(rows) - 1) |-> PlaceOf(rows[i], b)]
\* The place bells which the place bell b becomes, in order
RECURSIVE BellCycle(_, _)
BellCycle(head, bs) == LET nxt == PlaceOf(head, bs[Len(bs)])
                       IN  IF nxt = bs[1] THEN bs ELSE BellCycle(head, Append(bs, nxt))
\* A cycle of bells is represented by its smallest bell
CycleStarts(head) == {b \in 0..(Len(head) - 1) : \A c \in Rng(BellCycle(head, <<b>>)) : b <= c}
CyclePath(rows, b) == LET c == BellCycle(rows[Len(rows)], <<b>>)
                      IN  TLCEval(Concat([i \in 1..Len(c) |-> LeadPath(rows, c[i])]))

\* Paths are read cyclically
At(path, i) == path[((i - 1) % Len(path)) + 1]
\* A path is palindromic if it's one of the rotations of its reversal
Palindromic(path) == \E k \in 0..(Len(path) - 1) : \A i \in 1..Len(path) : path[i] = At(path, Len(path) * 2 + 1 - i - k)
PlacesMade(path)  == Cardinality({i \in 1..Len(path) : path[i] = At(path, i + 1)})
\* How often the path is in each of the places it visits
Visits(path) == {CountOf(p, path) : p \in Rng(path)}
MissesAPlace(path, n) == Cardinality(Rng(path)) < n

\* Hunt bell classes, by dominance
HbPlain == 1  HbTrebleDodging == 2  HbTreblePlace == 3  HbAlliance == 4  HbHybrid == 5
HuntBellClass(path) ==
  IF Cardinality(Rng(path)) = 1 THEN HbTreblePlace           \* stationary
  ELSE IF Visits(path) = {2} THEN HbPlain
  ELSE IF ~Palindromic(path) THEN HbHybrid
  ELSE IF Cardinality(Visits(path)) > 1 THEN HbAlliance
  ELSE IF PlacesMade(path) > 2 THEN HbTreblePlace
  ELSE IF PlacesMade(path) = 2 THEN HbTrebleDodging
  ELSE HbHybrid

\* A bell turns without making a place if it comes straight back to where it was
TurnsSharply(path) == \E i \in 1..Len(path) : /\ At(path, i) = At(path, i + 2)
                                               /\ Abs(At(path, i) - At(path, i + 1)) = 1
\* The changes (by the row before) in which a treble dodging hunt bell moves between dodging positions
CrossSections(path) == LET low == SetMin(Rng(path))
                       IN  {i \in 1..Len(path) : (At(path, i) - low) \div 2 # (At(path, i + 1) - low) \div 2}
PlacesAt(rows, i) == HasInternal(PnBetween(rows[i], rows[i + 1]))

Classify(rows) ==
  LET n       == Len(rows[1])
      head    == rows[Len(rows)]
      starts  == CycleStarts(head)
      paths   == TLCEval([b \in starts |-> CyclePath(rows, b)])
      size(b) == Len(BellCycle(head, <<b>>))
      hunts   == {b \in starts : size(b) = 1}
      working == starts \ hunts
      classes == TLCEval([b \in hunts |-> HuntBellClass(paths[b])])
      best    == SetMin({classes[b] : b \in hunts})
      leading == {b \in hunts : classes[b] = best}
      cross   == UNION {CrossSections(paths[b]) : b \in leading}
      class   == CASE best = HbPlain ->
                        IF \E b \in starts \ leading : TurnsSharply(paths[b]) THEN Bob ELSE Place
                   [] best = HbTrebleDodging ->
                        IF \A i \in cross : ~PlacesAt(rows, i) THEN TrebleBob
                        ELSE IF \A i \in cross : PlacesAt(rows, i) THEN Surprise ELSE Delight
                   [] best = HbTreblePlace -> TreblePlace
                   [] best = HbAlliance -> Alliance
                   [] OTHER -> Hybrid
      diff    == \E a, b \in working : size(a) # size(b)
  IN  IF hunts = {} THEN [j |-> FALSE, l |-> FALSE, d |-> diff, c |-> Principle]
      ELSE [j |-> FALSE, l |-> \A b \in leading : MissesAPlace(paths[b], n), d |-> diff, c |-> class]

-----------------------------------------------------------------------------
\* Titles
ClassNames == <<T("Principle"), T("Place"), T("Bob"), T("Treble Bob"), T("Delight"), T("Surprise"),
                T("Treble Place"), T("Alliance"), T("Hybrid")>>
ClassName(c) == ClassNames[c + 1]
NamedInTitle(c) == c \notin {Principle, Hybrid}
RECURSIVE Spaced(_)
\* The non-empty parts, separated by spaces
Spaced(parts) == LET p == SelectSeq(parts, LAMBDA x : x # <<>>)
                 IN  IF p = <<>> THEN <<>>
                     ELSE IF Len(p) = 1 THEN p[1]
                     ELSE p[1] \o <<32>> \o Spaced(Tail(p))
Flag(b, str) == IF b THEN T(str) ELSE <<>>
ClassText(cls) == Spaced(<<Flag(cls.j, "Jump"), Flag(cls.d, "Differential"), Flag(cls.l, "Little"), ClassName(cls.c)>>)
Title(name, cls, n) ==
  Spaced(<<name, Flag(cls.j, "Jump"), Flag(cls.d, "Differential"),
           Flag(cls.l /\ NamedInTitle(cls.c), "Little"),
           IF NamedInTitle(cls.c) THEN ClassName(cls.c) ELSE <<>>, StageText(n)>>)
ClassInfo(c) ==
  [plain |-> c \in {Place, Bob}, td |-> c \in {TrebleBob, Delight, Surprise},
   sym |-> c \in {Place, Bob, TrebleBob, Delight, Surprise, TreblePlace, Alliance},
   hbc |-> CASE c = Principle -> "none" [] c \in {Place, Bob} -> "plain"
             [] c \in {TrebleBob, Delight, Surprise} -> "td" [] c = TreblePlace -> "tp"
             [] c = Alliance -> "all" [] OTHER -> "hyb",
   name |-> ClassName(c), disp |-> ClassName(c),
   title |-> IF NamedInTitle(c) THEN Some(ClassName(c)) ELSE None]

\* Methods made from place notation
NamedMethod(name, n, rows, labels) == MethodOf(Title(name, Classify(rows), n), name, n, rows, labels)
MethodFromPns(name, pns) ==
  NamedMethod(name, pns[1].n, NotationRows(pns, Rounds(pns[1].n)), Repeat(NoLabel, Len(pns)))
MethodWithLeadEnd(name, pns) ==
  NamedMethod(name, pns[1].n, NotationRows(pns, Rounds(pns[1].n)),
              Append(Repeat(NoLabel, Len(pns) - 1), LabelLeadEnd))
SetLabel(m, x, label) == IF x < LeadLen(m) THEN Out("ok", [m EXCEPT !.labels[x + 1] = label]) ELSE Out("panic", m)
LabelIndices(m, label) == SelectSeq([i \in 1..LeadLen(m) |-> i - 1], LAMBDA x : m.labels[x + 1] = Some(label))

-----------------------------------------------------------------------------
\* Calls (call.rs)
CallInfo(notation, loc, cov, b) ==
  [not |-> notation, loc |-> loc, cov |-> cov, len |-> BlkLen(b), n |-> b.n, eff |-> BlkEffective(b),
   tr |-> LeftOver(b), rows |-> b.rows]
=============================================================================
