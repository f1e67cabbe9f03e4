-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks histories recorded from the implementation against Bellframe.    *)
(* TRACES names a file with one history per line: the calls, each with the *)
(* result r which the implementation gave.  Every history is a behaviour;  *)
(* the state is always the one that the specification computes.            *)
(***************************************************************************)
EXTENDS Bellframe, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES h, l, st, bad
vars == <<h, l, st, bad>>

Init == /\ h \in 1..Len(Traces)
        /\ l = 0 /\ st = InitState /\ bad = 0
Next == /\ l < Len(Traces[h])
        /\ LET ev == Traces[h][l + 1]
               o  == Step(st, ev, ev.r)
               \* Nothing may ever hang or end the process, whatever else is left open
               ends == "t" \in DOMAIN ev.r /\ ev.r.t \in {"abort", "hang"}
           IN  /\ st' = o.s
               /\ bad' = IF o.ok /\ ~ends THEN bad
                         ELSE IF bad = 0 /\ PrintT("REJECT|" \o ToString(h) \o "|" \o ToString(l + 1) \o "|"
                                                   \o ev.op \o "|" \o ToString(o.exp))
                         THEN 1 ELSE 1
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_vars
\* The state of the specification is always well-formed
StateInv == StateOk(st)
=============================================================================
