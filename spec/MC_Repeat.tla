------------------------------ MODULE MC_Repeat -----------------------------
\* C12: repeating blocks, of up to L rows and stage N, from every row, in every mix of operations
EXTENDS ModelBase
CONSTANTS N, L, D     \* D: operations
VARIABLES b, st, script

Blocks == UNION {UNION {{Blk(n, rows, [k \in 1..l |-> 10 + k]) : rows \in [1..(l + 1) -> RowsOf(n)]} : l \in 0..L} : n \in 1..N}
Setup == <<[op |-> "bnew", i |-> 0, how |-> "idx", n |-> b.n, rows |-> b.rows, an |-> b.an]>>
Into(k) == [op |-> "rinto", i |-> 0, k |-> k]
Ops == {[op |-> "rnext", i |-> 0], [op |-> "rnext", i |-> 1], Into(1), [op |-> "rskip", i |-> 0, x |-> 2], [op |-> "rskip", i |-> 1, x |-> 3],
        [op |-> "rclone", i |-> 0, j |-> 1], [op |-> "rclone", i |-> 1, j |-> 0]}
RECURSIVE Steps(_, _)
Steps(s, evs) == IF evs = <<>> THEN s ELSE Steps(After(s, evs[1]), Tail(evs))
Init == /\ b \in Blocks
        /\ \E a \in RowsOf(b.n) :
             script = Setup \o <<[op |-> "rnew", i |-> 0, j |-> 0, a |-> a], [op |-> "rnew", i |-> 1, j |-> 0, a |-> Rounds(b.n)]>>
        /\ st = Steps(InitState, script)
Next == /\ Len(script) < D + 3
        /\ \E o \in Ops : script' = Append(script, o) /\ st' = After(st, o)
        /\ b' = b
        /\ Len(script') = D + 3 => Emit(script' \o <<[op |-> "rnext", i |-> 0], [op |-> "rnext", i |-> 1]>>)
Law == StateOk(st)
\* What is yielded is what the closed form says
FormLaw == \A i \in 1..2 : LET p == st.reps[i][1] IN BlkLen(b) > 0 => RepStep(p).r.v = RepRow(p)
\* A block which starts from rounds is repeated seamlessly: the first row of each repeat is the left-over row of the one before
SeamLaw == \A i \in 1..2 : LET p == st.reps[i][1]
                           IN  BlkLen(b) > 0 /\ b.rows[1] = Rounds(b.n) /\ p.k = BlkLen(b) =>
                                 RepStep(p).r.v = Mul(p.h, LeftOver(b))
SkipLaw == LET p == st.reps[1][1] IN BlkLen(b) > 0 => RepSkip(p, 2) = RepStep(RepStep(p).s).s
=============================================================================
