------------------------------- MODULE MC_Lib -------------------------------
\* C26, C27, C28: libraries of a few methods which are easily confused, with all the queries
EXTENDS ModelBase
CONSTANTS M       \* most methods
VARIABLES groups, done

Cls(c, l) == [j |-> FALSE, l |-> l, d |-> FALSE, c |-> c]
Methods1 == {[s |-> n, j |-> FALSE, l |-> c.l, d |-> FALSE, c |-> c.c, m |-> <<[t |-> t, n |-> nm, p |-> p]>>] :
               n \in {5, 6}, c \in {Cls(2, FALSE), Cls(0, TRUE)}, t \in {None, Some(T("a BOB Minor"))},
               nm \in {T("A"), T("B")}, p \in {T("x"), T("1")}}
            \cup {[s |-> 6, j |-> FALSE, l |-> FALSE, d |-> FALSE, c |-> 2, m |-> <<[t |-> t, n |-> T("A"), p |-> T("x1x")]>>] :
                    t \in {Some(T("")), Some(T("Minor")), Some(T("A Bob Minor")), Some(T("a BOB Minor Doubles"))}}
Init == groups \in Seqs(Methods1, M) /\ done = FALSE
lib == TLCEval(LibOfGroups(groups))
Queries == {T("A Bob Minor"), T("a bob minor"), T("A BOB DOUBLES"), T("B Doubles"), T("Minor"), T(""), T("A Bob Minor Doubles"), T("A Bob"), T("A  Bob Minor")}
Load == <<[op |-> "lload", json |-> LibText(groups)]>>
Gets == [i \in 1..Cardinality(Queries) |-> [op |-> "lget", q |-> SetToSeq(Queries)[i]]]
Sugs == [i \in 1..6 |-> [op |-> "lsug", q |-> (IF i % 2 = 1 THEN T("B Bob Minor") ELSE T("A")), k |-> (i - 1) \div 2]]
Next == ~done /\ done' = TRUE /\ groups' = groups
        /\ Emit(Load \o Gets \o Sugs \o <<[op |-> "ljson"], [op |-> "lreload"]>> \o Gets \o <<[op |-> "ljson"]>>)

LibLaw == /\ LibOk(lib)
          /\ \A e \in lib : e.key = Lower(e.title)
          /\ \A q \in Queries : Cardinality(Found(lib, q)) <= 1 /\ Found(lib, q) = Found(lib, Lower(q))
\* The last method with a title at a stage is the one that counts
LastLaw == groups # <<>> => LET g == groups[Len(groups)]
                                e == Entry(g.s, IF g.m[1].t.t = "some" THEN g.m[1].t.v ELSE Title(g.m[1].n, GroupClass(g), g.s),
                                           g.m[1].n, GroupClass(g), g.m[1].p)
                            IN  /\ e \in lib
                                /\ lib \ {e} \subseteq LibOfGroups(SubSeq(groups, 1, Len(groups) - 1))
                                \* standard titles can always be looked up
                                /\ g.m[1].t = None => Found(lib, e.title) = {e}
RoundLaw == LET w == LibText([i \in 1..Cardinality(lib) |-> EntryGroup(SetToSeq(lib)[i])])
            IN  Describes(w, lib) /\ LibOfGroups(Decoded(w).v) = lib
DecodeLaw == Decoded(LibText(groups)) = Dec("ok", groups)
DistLaw == \A e, f \in lib : \A q \in {T("Ab"), T("bA")} :
             LET a == SubSeq(e.key, 1, 4)  b == SubSeq(f.key, Min2(3, Len(f.key) + 1), Min2(6, Len(f.key)))
             IN  /\ Len(e.key) >= 4 => /\ Lev(a, b) = LevRec(a, b) /\ Lev(a, b) = Lev(b, a)
                                       /\ (Lev(a, b) = 0) <=> (a = b)
                                       /\ Lev(a, b) <= Lev(a, q) + Lev(q, b)
=============================================================================
