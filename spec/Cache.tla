-------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Where the Central Council's library comes from (src/method_lib/mod.rs): *)
(* a cache file, or a server whose answer is then kept in that file.       *)
(*                                                                         *)
(*   cf = [k, rd, wr, d]          the cache: k is "none", "dir" or "file", *)
(*                                d the file's content, rd and wr whether  *)
(*                                it can be read, and written (or created) *)
(*   sv = [m, status, d, part]    how the server (mis)behaves, and the     *)
(*                                body of its answers                      *)
(*                                                                         *)
(* Contents are texts (code points), or bytes less 256 if they aren't text.*)
(***************************************************************************)
EXTENDS Library

NoCache  == [k |-> "none", rd |-> FALSE, wr |-> TRUE, d |-> <<>>]
NoServer == [m |-> "down", status |-> 200, d |-> <<>>, part |-> 0]
IsText(d) == \A i \in 1..Len(d) : d[i] >= 0
\* The library in some content
Held(d) == IF IsText(d) THEN Decoded(d) ELSE DecErr
CachedLib(cf) == IF cf.k = "file" /\ cf.rd THEN Held(cf.d) ELSE DecErr
\* The ways in which the whole of a body reaches the client
Answers == {"plain", "chunked", "close"}
Faults  == {"down", "drop", "proxy", "notls", "badtls", "silent", "garbage", "short", "cut"}
ServedLib(sv) == IF sv.m \notin Answers THEN DecErr
                 ELSE IF Held(sv.d).t = "ok" /\ sv.status # 200 THEN DecEither     \* nothing is said of those
                 ELSE Held(sv.d)
\* The cache after a text was fetched
Stored(cf, d) == IF ~cf.wr THEN cf
                 ELSE [k |-> "file", rd |-> cf.rd \/ cf.k = "none", wr |-> TRUE, d |-> d]

\* What a call loading the library n times, all at once, leaves; where from is "cache", "server" or "" if
\* nothing could be loaded
CcLoad(cf, sv) ==
  LET c == CachedLib(cf)
      s == ServedLib(sv)
      Res(from, lib, after) == [sure |-> TRUE, from |-> from, lib |-> lib, cf |-> after]
  IN  CASE c.t = "ok"     -> Res("cache", <<TLCEval(LibOfGroups(c.v))>>, cf)
        [] c.t = "either" -> [Res("", <<>>, cf) EXCEPT !.sure = FALSE]
        [] s.t = "ok"     -> Res("server", <<TLCEval(LibOfGroups(s.v))>>, Stored(cf, sv.d))
        [] s.t = "either" -> [Res("", <<>>, cf) EXCEPT !.sure = FALSE]
        [] OTHER          -> Res("", <<>>, cf)
\* Whether r is right for n loads
LoadOk(cf, sv, n, r) ==
  LET o == CcLoad(cf, sv)
  IN  /\ r.t = "ok"
      /\ Len(r.v) = n
      /\ \A i \in 1..n : r.v[i].t # "panic"
      /\ o.sure => /\ \A i \in 1..n : IF o.lib = <<>> THEN r.v[i].t = "none"
                                      ELSE r.v[i].t = "some" /\ Describes(r.v[i].v, o.lib[1])
                   /\ r.k = o.cf.k /\ r.d = o.cf.d
                   /\ o.from = "cache" => r.conns = 0
                   /\ o.from = "server" => r.conns \in 1..n
=============================================================================
