------------------------------- MODULE MC_Label -----------------------------
\* C18: labels of a method, set and cleared in every way
EXTENDS ModelBase
CONSTANTS L
VARIABLE st
Pns == [k \in 1..L |-> IF k % 2 = 1 THEN Pn(3, <<2>>) ELSE Pn(3, <<0>>)]
Lab == {NoLabel, LabelLeadEnd, Some(T("x")), Some(<<>>)}
Rows == NotationRows(Pns, Rounds(3))
Init == st = [InitState EXCEPT !.meth = <<MethodOf(T("T"), T("N"), 3, Rows, Repeat(NoLabel, L))>>]
Labels == st.meth[1].labels
Setup == <<[op |-> "mnew", title |-> T("T"), name |-> T("N"), how |-> "new", n |-> 3, rows |-> Rows, labels |-> Labels,
            cls |-> [j |-> FALSE, l |-> FALSE, d |-> FALSE, c |-> 0]]>>
Ops == {[op |-> "mset", how |-> "label", x |-> x, label |-> l] : x \in 0..L, l \in Lab}
       \cup {[op |-> "mset", how |-> "le"], [op |-> "minfo"], [op |-> "mcourse"]}
       \cup {[op |-> "mgetl", x |-> x] : x \in 0..L}
       \cup {[op |-> "mfind", label |-> l] : l \in {T("LE"), T("x"), <<>>, T("y")}}
Probe == <<[op |-> "minfo"], [op |-> "mcourse"]>>
Next == Explore(st, st', Ops, Setup, Probe)
Law == /\ StateOk(st)
       /\ \A l \in {T("LE"), T("x"), <<>>} : Rng(LabelIndices(st.meth[1], l)) = {x \in 0..(L - 1) : Labels[x + 1] = Some(l)}
=============================================================================
