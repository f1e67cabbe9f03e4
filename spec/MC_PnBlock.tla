----------------------------- MODULE MC_PnBlock -----------------------------
\* C15, C16: reading a block of place notation one character at a time.  The automaton knows only
\* where it is; what it finds is compared with Notation's definition over the whole text.
EXTENDS ModelBase
CONSTANTS TL, Stages
VARIABLES n, s,
          pos,       \* bytes read
          parts,     \* the parts which have ended: [plus, items]
          part,      \* the present part: [plus, items, begun]
          cur,       \* the places of the notation being read: [pl, lo, last], positions in bytes
          faults     \* errors which may be reported
vars == <<n, s, pos, parts, part, cur, faults>>

Alphabet == {49, 51, 120, 46, 44, 43, 233}
NoCur  == [pl |-> <<>>, lo |-> 0, last |-> 0]
NoPart == [plus |-> FALSE, items |-> <<>>, begun |-> FALSE]
Init == /\ n \in Stages /\ s = <<>> /\ pos = 0 /\ parts = <<>> /\ part = NoPart /\ cur = NoCur /\ faults = {}
PnE(lo, hi, e) == [t |-> "err", k |-> "pn", lo |-> lo, hi |-> hi, e |-> e]
\* The part and the faults once the notation being read has ended (before a delimiter or the like)
Closed == IF cur.pl = <<>> THEN [p |-> part, f |-> faults]
          ELSE LET f == PnFaults(cur.pl, n)
               IN  [p |-> [part EXCEPT !.items = Append(@, IF f = {} THEN Completed(cur.pl, n) ELSE <<>>)],
                    f |-> faults \cup {PnE(cur.lo, hi, e) : hi \in {cur.last, pos}, e \in f}]
EndPart(p) == Append(parts, [plus |-> p.plus, items |-> p.items])
Read(c) ==
  /\ n' = n /\ s' = Append(s, c) /\ pos' = pos + Utf8Len(c)
  /\ CASE c = 44 -> /\ parts' = EndPart(Closed.p) /\ part' = NoPart /\ cur' = NoCur /\ faults' = Closed.f
       [] c = 46 -> /\ part' = Closed.p /\ cur' = NoCur /\ faults' = Closed.f /\ parts' = parts
       [] c = 120 -> /\ part' = [Closed.p EXCEPT !.items = Append(@, <<>>), !.begun = TRUE]
                     /\ cur' = NoCur /\ parts' = parts
                     /\ faults' = Closed.f \cup (IF n % 2 = 1 THEN {PnE(pos, pos + 1, Fault("cross", 0, n))} ELSE {})
       [] c = 43 -> /\ part' = [part EXCEPT !.plus = @ \/ ~part.begun, !.begun = TRUE]
                    /\ faults' = IF part.begun THEN faults \cup {[t |-> "err", k |-> "plus", lo |-> pos]} ELSE faults
                    /\ UNCHANGED <<parts, cur>>
       [] BellOf(c) >= 0 ->
            /\ part' = [part EXCEPT !.begun = TRUE]
            /\ cur' = [pl |-> Append(cur.pl, BellOf(c)), lo |-> IF cur.pl = <<>> THEN pos ELSE cur.lo, last |-> pos + 1]
            /\ UNCHANGED <<parts, faults>>
       [] OTHER -> UNCHANGED <<parts, part, cur, faults>>
Next == /\ Len(s) < TL /\ \E c \in Alphabet : Read(c)
        /\ Emit(<<[op |-> "pnb_parse", s |-> s', n |-> n]>>)

AllParts == EndPart(Closed.p)
Items == Concat([k \in 1..Len(AllParts) |-> AllParts[k].items])
AllFaults == Closed.f \cup (IF Items = <<>> THEN {[t |-> "err", k |-> "empty"]} ELSE {})
Palin(w) == w \o Reverse(SubSeq(w, 1, Len(w) - 1))
Meaning == Concat([k \in 1..Len(AllParts) |->
                     LET w == AllParts[k].items
                     IN  IF Len(AllParts) = 1 \/ AllParts[k].plus \/ w = <<>> THEN w ELSE Palin(w)])
Parsed == PnBlockParse(s, n)
OkLaw == /\ Parsed.ok <=> AllFaults = {}
         /\ Parsed.ok => Parsed.pns = Meaning
ErrLaw == \A f \in AllFaults : PnBlockErrOk(s, n, Parsed, f)
ValidLaw == Parsed.ok => \A i \in 1..Len(Parsed.pns) : ValidPlaces(Parsed.pns[i], n)
=============================================================================
