------------------------------ MODULE MC_Say ------------------------------
\* C35: what the messages of errors and the debug output tell
EXTENDS ModelBase
VARIABLES ev, done
CONSTANT Stage

Hows == {"mul", "mul_into", "mul_into_row", "mul_into_row_out", "inv_into", "ax", "xa", "ttu", "cart", "group", "isgroup", "push", "ext",
         "extbuf", "exttr", "extw", "vpre", "vpremd", "bpre", "bext", "bextr", "rep", "acc", "pacc", "pn", "pnn", "rows", "block", "pns"}
ValidSets(n) == {Ascending(S, n) : S \in SUBSET (0..(n - 1))}
Numbers == {0, 9, 10, 33}
Stages  == {1, 2, 6, 22, 23}
Errors == {[op |-> "emsg", how |-> h, x |-> x, y |-> y, n |-> n, m |-> m, at |-> at] :
             h \in ErrorKinds, x, y \in Numbers, n, m \in Stages, at \in {0, 7}}
Cases == {e \in Errors : e.n # e.m /\ e.x < e.y}
         \cup {[op |-> "smis", how |-> h, a |-> Rounds(x), b |-> Rounds(y)] : h \in Hows, x, y \in 1..3}
         \cup {[op |-> "dbg", how |-> h, a |-> r] : h \in {"row", "rowbuf"}, r \in RowsUpTo(Stage)}
         \cup {[op |-> "dbg", how |-> "bell", x |-> x] : x \in 0..40}
         \cup {[op |-> "dbg", how |-> "mask", m |-> m] : m \in Seqs({Free, 0, 33}, 3)}
         \cup {[op |-> "dbg", how |-> "regex", e |-> e] : e \in Seqs({Wild, Glob, 0, 33}, 3)}
         \cup {[op |-> "dbg", how |-> "pn", pn |-> pn] : pn \in UNION {{Pn(n, pl) : pl \in {x \in ValidSets(n) : ValidPlaces(x, n)}} : n \in 1..Stage}}

Init == ev \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ ev' = ev /\ Emit(<<ev>>)

\* Errors which are about different things are told apart by a message which mentions just what it must
Said(e) == Concat([i \in 1..Len(Mentioned(e.how, e)) |-> Append(Mentioned(e.how, e)[i], 32)])
Law == /\ ev.op = "emsg" => /\ MentionsAll(Said(ev), Mentioned(ev.how, ev))
                            /\ MentionsInOrder(Said(ev), Mentioned(ev.how, ev))
       /\ ev.op = "dbg" /\ ev.how = "row" => MentionsInOrder(RowText(ev.a), <<RowText(ev.a)>>)
ASSUME /\ Mentions(T("abc"), T("bc")) /\ ~Mentions(T("abc"), T("ac")) /\ Mentions(T("abc"), <<>>)
       /\ MentionsInOrder(T("abab"), <<T("ab"), T("ab")>>) /\ ~MentionsInOrder(T("aba"), <<T("ab"), T("ab")>>)
       /\ ~MentionsInOrder(T("ab"), <<T("b"), T("a")>>)
=============================================================================
