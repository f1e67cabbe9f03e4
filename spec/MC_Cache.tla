------------------------------ MODULE MC_Cache ------------------------------
(***************************************************************************)
(* C30: every history of loads and of faults in a small world: the file    *)
(* may be replaced, cut short or made inaccessible by others, the server   *)
(* may change what it serves and how, and a load may be interrupted while  *)
(* it writes.                                                              *)
(***************************************************************************)
EXTENDS ModelBase
CONSTANTS Wide
VARIABLES cf, sv, done

Lib(n) == LibText(<<[s |-> 5, j |-> FALSE, l |-> FALSE, d |-> FALSE, c |-> 2, m |-> <<[t |-> None, n |-> n, p |-> T("1")]>>]>>)
A == Lib(<<65>>)
B == Lib(<<66, 233>>)
Empty == T("{\"groups\":[]}")
Cut(x, k) == SubSeq(x, 1, k)
BadClass == T("{\"groups\":[{\"s\":5,\"c\":9,\"m\":[]}]}")
Good == {A, B}
Bad  == {<<>>, BadClass, Cut(A, Len(A) - 1), Append(A, 125), <<123 - 256, 255 - 256>>, T("404: Not Found")}
        \cup (IF Wide THEN {Cut(A, k) : k \in 1..(Len(A) - 2)} \cup {Empty, <<32>> \o A \o <<10>>} ELSE {Cut(A, 1), Cut(B, Len(B) \div 2)})
Perms == {420, 256, 128, 0}        \* rw-r--r--, r--------, -w-------, ---------
Kinds == {<<"none", 0>>, <<"nodir", 0>>, <<"dir", 0>>, <<"dangling", 0>>, <<"rodir", 0>>}
Sets  == {[op |-> "cset", k |-> x[1], m |-> x[2], d |-> <<>>] : x \in Kinds}
         \cup {[op |-> "cset", k |-> "file", m |-> m, d |-> d] : m \in Perms, d \in Good}
         \cup {[op |-> "cset", k |-> "file", m |-> 420, d |-> d] : d \in Bad}
         \cup {[op |-> "cset", k |-> "file", m |-> m, d |-> BadClass] : m \in {256, 0}}
         \cup {[op |-> "cset", k |-> "link", m |-> 420, d |-> d] : d \in {A, BadClass}}
Srv(m, s, d) == [op |-> "csrv", m |-> m, status |-> s, d |-> d, part |-> Len(d) \div 2]
ServedBad == IF Wide THEN {d \in Bad : IsText(d)} ELSE {<<>>, BadClass, Cut(A, Len(A) - 1), T("404: Not Found")}
Servers == {Srv(m, 200, d) : m \in Answers, d \in Good}
           \cup {Srv("plain", 200, d) : d \in ServedBad} \cup {Srv("chunked", 200, Cut(A, Len(A) - 1))}
           \cup {Srv(m, 200, B) : m \in Faults}
           \cup {Srv("plain", s, d) : s \in {404, 500, 503}, d \in {B, T("404: Not Found")}}
CfOf(o)  == After([InitState EXCEPT !.cf = NoCache], o).cf
SvOf(o)  == [m |-> o.m, status |-> o.status, d |-> o.d, part |-> o.part]
CLoad(n) == [op |-> "cload", n |-> n]

Init == cf = NoCache /\ sv = NoServer /\ done = 0
World == \/ \E o \in Sets : cf' = CfOf(o) /\ UNCHANGED <<sv, done>>
         \/ \E o \in Servers : sv' = SvOf(o) /\ UNCHANGED <<cf, done>>
DoLoad == LET o == TLCEval(CcLoad(cf, sv)) IN o.sure /\ cf' = o.cf /\ UNCHANGED <<sv, done>>
\* A load which dies after some of the text was written
Crash == LET o == TLCEval(CcLoad(cf, sv))
         IN  /\ o.sure /\ o.from = "server" /\ o.cf # cf
             /\ \E k \in {0, Len(o.cf.d) \div 2} : cf' = [o.cf EXCEPT !.d = Cut(@, k)]
             /\ UNCHANGED <<sv, done>>
\* The histories for the implementation: from each state of the world, a few loads with a change in between
Emits == /\ done = 0 /\ done' = 1 /\ UNCHANGED <<cf, sv>>
         /\ cf = NoCache /\ sv = NoServer
         /\ \A s \in Sets, v \in Servers :
              Emit(<<s, v, CLoad(1), [op |-> "ljson"], CLoad(1), Srv(IF v.d = A THEN "drop" ELSE "plain", 200, IF v.d = B THEN A ELSE B), CLoad(IF v.m = "plain" THEN 2 ELSE 1)>>)
Next == World \/ DoLoad \/ Crash \/ Emits

Now == TLCEval(CcLoad(cf, sv))
\* What is loaded is exactly what the cache holds, or else what the server sends
Exact == LET old == CachedLib(cf)
             new == ServedLib(sv)
         IN  Now.sure => /\ (Now.from = "cache") <=> (old.t = "ok")
                         /\ old.t = "ok" => Now.lib = <<LibOfGroups(old.v)>>
                         /\ old.t # "ok" /\ new.t = "ok" => Now.from = "server" /\ Now.lib = <<LibOfGroups(new.v)>>
                         /\ old.t # "ok" /\ new.t # "ok" => Now.lib = <<>> /\ Now.from = ""
\* A load only ever changes the cache from what holds no library to a text which does, and is loaded too
OnlyValid == Now.cf # cf => /\ CachedLib(cf).t # "ok" /\ Held(Now.cf.d).t = "ok" /\ cf.wr /\ Now.cf.d = sv.d
                            /\ Now.from = "server"
\* Whatever was cut short is never taken for a library
CutLaw == \A x \in {A, B, Empty} : \A k \in 0..(Len(x) - 1) : Held(Cut(x, k)).t = "err"
ASSUME CutLaw
\* After a load which stored its library, the next one needs no server
Settled == Now.cf # cf /\ Now.cf.rd =>
             LET o == CcLoad(Now.cf, NoServer) IN o.from = "cache" /\ o.lib = Now.lib /\ o.cf = Now.cf
\* A server which serves a library, and any cache at all, always give one
Recovers == sv.m \in Answers /\ sv.d \in Good /\ sv.status = 200 => Now.lib # <<>>
=============================================================================
