------------------------------- MODULE MC_Acc -------------------------------
\* C03, C33: two accumulators, and (as their history) what each was given since it was made or set
EXTENDS ModelBase
CONSTANTS N
VARIABLES st
Rows == RowsUpTo(N)
Init == st = InitState
Ops == {[op |-> "anew", i |-> 0, how |-> "rounds", n |-> n] : n \in 1..N}
       \cup {[op |-> "anew", i |-> 0, how |-> "new", a |-> a] : a \in Rows}
       \cup {[op |-> "aacc", i |-> 0, how |-> h, a |-> a] : h \in {"acc", "pre", "set", "mulr", "mulb"}, a \in Rows}
       \cup {[op |-> "aclone", i |-> 0, j |-> 1], [op |-> "aclone", i |-> 1, j |-> 0], [op |-> "atot", i |-> 0]}
SetupOf(i) == [op |-> "anew", i |-> i, how |-> "new", a |-> st.accs[i + 1]]
Probe == <<[op |-> "atot", i |-> 0], [op |-> "atot", i |-> 1]>>
Next == Explore(st, st', Ops, <<SetupOf(0), SetupOf(1)>>, Probe)
Law == StateOk(st)
FailLaw == \A o \in Ops : LET r == Call(st, o) IN \A e \in r.exp : e.t \in {"err", "panic"} => r.s = st
\* Giving two rows is giving their product
ProdLaw == \A a, b \in RowsOf(Len(st.accs[1])) :
             /\ AccMul(AccMul(st.accs[1], a).s, b).s = AccMul(st.accs[1], Mul(a, b)).s
             /\ AccPreMul(AccPreMul(st.accs[1], a).s, b).s = AccPreMul(st.accs[1], Mul(b, a)).s
             /\ AccPreMul(AccMul(st.accs[1], a).s, b).s = AccMul(AccPreMul(st.accs[1], b).s, a).s
=============================================================================
