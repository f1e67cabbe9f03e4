------------------------------- MODULE MC_Vec -------------------------------
\* C03, C08: all the operations of same-stage buffers, on two of them
EXTENDS ModelBase
CONSTANTS N,      \* largest stage
          L       \* most rows
VARIABLE st
Regs == 0..1
Rows == RowsUpTo(N)
Init == st = InitState

OpsOn(i, j) ==
  LET v == st.vecs[i + 1]
      w == st.vecs[j + 1]
      len == Len(v.rows)
  IN  {[op |-> "vnew", i |-> i, how |-> "new", n |-> n] : n \in 1..N}
      \cup {[op |-> "vnew", i |-> i, how |-> "buf", a |-> a] : a \in Rows}
      \cup {[op |-> "vpush", i |-> i, a |-> a] : a \in Rows}
      \cup {[op |-> "vpop", i |-> i], [op |-> "vobs", i |-> i], [op |-> "veq", i |-> i, j |-> j]}
      \cup {[op |-> "vext", i |-> i, how |-> "rows", rows |-> s] : s \in Seqs(Rows, 2)}
      \cup {[op |-> "vext", i |-> i, j |-> j, how |-> h] : h \in {"vec", "buf"}}
      \cup {[op |-> "vexttr", i |-> i, j |-> j, a |-> a, how |-> "all"] : a \in Rows}
      \cup {[op |-> "vexttr", i |-> i, j |-> j, a |-> a, how |-> "range", rg |-> g] : a \in Rows, g \in GoodRanges(Len(w.rows))}
      \cup {[op |-> "vextw", i |-> i, rg |-> g, a |-> a] : a \in Rows, g \in GoodRanges(len)}
      \cup {[op |-> "vpre", i |-> i, a |-> a, how |-> h] : a \in Rows, h \in {"pre", "permute"}}
      \cup {[op |-> "vpremd", i |-> i, j |-> j, a |-> a] : a \in Rows}
      \cup {[op |-> "vsplit", i |-> i, j |-> j, x |-> x] : x \in 0..(len + 1) \cup {MaxUsize}}
      \cup {[op |-> "vget", i |-> i, x |-> x, how |-> h] : x \in 0..(len + 1) \cup {MaxUsize},
              h \in {"get", "get_mut", "first", "last", "first_mut", "last_mut", "index"}}
      \cup {[op |-> "vedit", i |-> i, x |-> x, p |-> 0, q |-> q, how |-> h] :
              x \in 0..(len + 1), q \in 0..(v.n - 1), h \in {"get", "first", "last"}}
Ops == OpsOn(0, 1)
SetupOf(i) == [op |-> "vnew", i |-> i, how |-> "lit", n |-> st.vecs[i + 1].n, rows |-> st.vecs[i + 1].rows]
Probe == <<[op |-> "vobs", i |-> 0], [op |-> "vobs", i |-> 1], [op |-> "veq", i |-> 0, j |-> 1]>>
\* The second buffer only changes by splits, and by being swapped with the first (to reach all pairs)
Swap == st' = [st EXCEPT !.vecs = <<st.vecs[2], st.vecs[1], st.vecs[3]>>]
Next == Swap \/ Explore(st, st', Ops, <<SetupOf(0), SetupOf(1)>>, Probe)
Small == \A i \in Regs : Len(st.vecs[i + 1].rows) <= L
Law == StateOk(st)
\* What the operations mean, said differently
SplitLaw == \A x \in 0..L : LET v == st.vecs[1]  s == VecSplit(v, x)
                            IN  IF x > Len(v.rows) THEN s = <<>> ELSE VecExtendBuf(s[1], s[2]) = Out("ok", v)
PopLaw == \A a \in Rows : LET v == st.vecs[1]  o == VecPush(v, a)
                          IN  o.r = "ok" => VecPop(o.s) = Out(Some(a), v)
PreLaw == \A a, b \in Rows : LET v == st.vecs[1]
                             IN  Len(a) = v.n /\ Len(b) = v.n => VecPreMul(VecPreMul(v, a).s, b).s = VecPreMul(v, Mul(b, a)).s
FailLaw == \A o \in Ops : LET r == Call(st, o) IN \A e \in r.exp : e.t = "err" => r.s = st
=============================================================================
