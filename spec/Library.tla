------------------------------- MODULE Library ------------------------------
(***************************************************************************)
(* Method libraries (src/method_lib).  A library is a set of entries       *)
(* [n, key, title, name, cls, pn], at most one per stage and key, where    *)
(* the key is the lower case title.                                        *)
(***************************************************************************)
EXTENDS Methods, JsonText

Entry(n, title, name, cls, pn) ==
  [n |-> n, key |-> Lower(title), title |-> title, name |-> name, cls |-> cls, pn |-> pn]
LibInsert(lib, e) == {x \in lib : x.n # e.n \/ x.key # e.key} \cup {e}
LibOk(lib) == \A x, y \in lib : x.n = y.n /\ x.key = y.key => x = y

\* The library of a JSON text.  Decoding gives t: "ok", "err", or "either" where the API promises
\* nothing (fields given twice, structures written as arrays, numbers of more than nine digits).  A
\* library is decoded into its groups [s, j, l, d, c, m] of methods [t, n, p]: stage, flags, class and
\* the methods' title (if any), name and place notation.
Dec(t, v) == [t |-> t, v |-> v]
DecErr == Dec("err", <<>>)
DecEither == Dec("either", <<>>)
\* Several decoded things which all have to be right
All(ds) == IF \E i \in 1..Len(ds) : ds[i].t = "err" THEN "err"
           ELSE IF \E i \in 1..Len(ds) : ds[i].t = "either" THEN "either" ELSE "ok"
FieldVals(o, name) == SelectSeq(o.v, LAMBDA f : f[1] = T(name))
\* A field decoded by f(_), or absent() if it isn't there
Field(o, name, f(_), absent) ==
  LET x == FieldVals(o, name)
  IN  IF x = <<>> THEN absent ELSE IF Len(x) > 1 THEN DecEither ELSE f(x[1][2])
DecStr(v)   == IF v.k = "str" THEN Dec("ok", v.v) ELSE DecErr
DecTitle(v) == IF v.k = "null" THEN Dec("ok", None) ELSE IF v.k = "str" THEN Dec("ok", Some(v.v)) ELSE DecErr
DecFlag(v)  == IF v.k = "bool" THEN Dec("ok", v.b) ELSE DecErr
DecStage(v) == IF v.k = "int" /\ v.x >= 1 THEN Dec("ok", v.x)
               ELSE IF v.k = "big" /\ ~v.v /\ v.len <= 20 THEN DecEither ELSE DecErr
DecClass(v) == IF v.k = "int" /\ v.x \in 0..8 THEN Dec("ok", v.x) ELSE DecErr
DecArr(v, f(_)) == IF v.k # "arr" THEN DecErr
                   ELSE LET ds == TLCEval([i \in 1..Len(v.v) |-> f(v.v[i])])
                        IN  Dec(All(ds), [i \in 1..Len(ds) |-> ds[i].v])
DecMethod(v) ==
  IF v.k = "arr" THEN DecEither ELSE IF v.k # "obj" THEN DecErr
  ELSE LET t == Field(v, "t", DecTitle, Dec("ok", None))
           n == Field(v, "n", DecStr, DecErr)
           p == Field(v, "p", DecStr, DecErr)
       IN  Dec(All(<<t, n, p>>), [t |-> t.v, n |-> n.v, p |-> p.v])
DecGroup(v) ==
  IF v.k = "arr" THEN DecEither ELSE IF v.k # "obj" THEN DecErr
  ELSE LET s == Field(v, "s", DecStage, DecErr)
           c == Field(v, "c", DecClass, DecErr)
           j == Field(v, "j", DecFlag, Dec("ok", FALSE))
           l == Field(v, "l", DecFlag, Dec("ok", FALSE))
           d == Field(v, "d", DecFlag, Dec("ok", FALSE))
           m == Field(v, "m", LAMBDA x : DecArr(x, DecMethod), DecErr)
       IN  Dec(All(<<s, c, j, l, d, m>>), [s |-> s.v, c |-> c.v, j |-> j.v, l |-> l.v, d |-> d.v, m |-> m.v])
DecLibrary(v) ==
  IF v.k = "arr" THEN DecEither ELSE IF v.k # "obj" THEN DecErr
  ELSE Field(v, "groups", LAMBDA x : DecArr(x, DecGroup), DecErr)
\* The groups of a text
Decoded(text) == LET v == TLCEval(JsonParse(text))
                 IN  IF v.k = "bad" THEN DecErr ELSE IF v.k = "odd" THEN DecEither ELSE DecLibrary(v)

GroupClass(g) == [j |-> g.j, l |-> g.l, d |-> g.d, c |-> g.c]
LibOfGroups(groups) ==
  FoldLeft(LAMBDA lib, g :
             FoldLeft(LAMBDA l, m :
                        LET title == IF m.t.t = "some" THEN m.t.v ELSE Title(m.n, GroupClass(g), g.s)
                        IN  LibInsert(l, Entry(g.s, title, m.n, GroupClass(g), m.p)),
                      lib, g.m),
           {}, groups)
NumMethods(groups) == SumSeq([i \in 1..Len(groups) |-> Len(groups[i].m)])
\* Whether a text describes each entry of a library once, and nothing else
Describes(text, lib) == LET d == Decoded(text)
                        IN  d.t = "ok" /\ NumMethods(d.v) = Cardinality(lib) /\ LibOfGroups(d.v) = lib
\* One way to write a library: a group for each method
EntryGroup(e) == [s |-> e.n, j |-> e.cls.j, l |-> e.cls.l, d |-> e.cls.d, c |-> e.cls.c,
                  m |-> <<[t |-> IF Title(e.name, e.cls, e.n) = e.title THEN None ELSE Some(e.title), n |-> e.name, p |-> e.pn]>>]
JStr(v) == [k |-> "str", v |-> v]
JInt(x) == [k |-> "int", x |-> x]
JArr(v) == [k |-> "arr", v |-> v]
JObj(v) == [k |-> "obj", v |-> v]
FlagField(name, b) == IF b THEN <<<<T(name), [k |-> "bool", b |-> TRUE]>>>> ELSE <<>>
MethodDoc(m) == JObj((IF m.t.t = "some" THEN <<<<T("t"), JStr(m.t.v)>>>> ELSE <<>>) \o <<<<T("n"), JStr(m.n)>>, <<T("p"), JStr(m.p)>>>>)
GroupDoc(g)  == JObj(<<<<T("s"), JInt(g.s)>>>> \o FlagField("j", g.j) \o FlagField("l", g.l) \o FlagField("d", g.d)
                     \o <<<<T("c"), JInt(g.c)>>, <<T("m"), JArr([i \in 1..Len(g.m) |-> MethodDoc(g.m[i])])>>>>)
LibDoc(groups) == JObj(<<<<T("groups"), JArr([i \in 1..Len(groups) |-> GroupDoc(groups[i])])>>>>)
LibText(groups) == JsonWrite(LibDoc(groups))

-----------------------------------------------------------------------------
LastWord(s) == LET p == SplitAt(s, LAMBDA c : c = 32) IN Part(s, p[Len(p)])
\* The entry with a title (in any case), as a set with at most one element
Found(lib, q) == LET k == Lower(q)
                 IN  {e \in lib : e.key = k /\ e.n = StageOfLower(LastWord(k))}
EntryMethod(e, parse) ==
  MethodOf(e.title, e.name, e.n, NotationRows(PnsOf(e.n, parse.pns), Rounds(e.n)),
           Repeat(NoLabel, Len(parse.pns)))
\* Whether r is right for looking a title up, where notFoundOk judges a result of "not found"
LookupOk(lib, q, r, notFoundOk) ==
  LET f == Found(lib, q)
  IN  IF f = {} THEN r.t = "nf" /\ notFoundOk
      ELSE LET e     == CHOOSE e \in f : TRUE
               parse == PnBlockParse(e.pn, e.n)
           IN  IF parse.ok THEN r.t = "ok" /\ r.v = MethodInfo(EntryMethod(e, parse))
               ELSE r.t = "pn" /\ r.pn = e.pn /\ PnBlockErrOk(e.pn, e.n, parse, r.e)

\* What may come of it: a method, an unparsable notation, or nothing
LookupKinds(lib, q) ==
  LET f == Found(lib, q)
  IN  IF f = {} THEN {"nf"}
      ELSE LET e == CHOOSE e \in f : TRUE IN IF PnBlockParse(e.pn, e.n).ok THEN {"ok"} ELSE {"pn"}

-----------------------------------------------------------------------------
\* Levenshtein distance: the fewest insertions, deletions and substitutions making b from a
RECURSIVE LevRec(_, _)
LevRec(a, b) == IF a = <<>> THEN Len(b) ELSE IF b = <<>> THEN Len(a)
                ELSE LET s == LevRec(Tail(a), Tail(b)) + (IF a[1] = b[1] THEN 0 ELSE 1)
                     IN  Min2(s, Min2(LevRec(Tail(a), b), LevRec(a, Tail(b))) + 1)
\* The same, computed row by row
Lev(a, b) ==
  LET nextRow(row, i) ==
        FoldLeft(LAMBDA acc, j : Append(acc,
                    Min2(row[j] + (IF a[i] = b[j] THEN 0 ELSE 1), Min2(row[j + 1], acc[j]) + 1)),
                 <<i>>, [j \in 1..Len(b) |-> j])
      last == FoldLeft(nextRow, [j \in 1..(Len(b) + 1) |-> j - 1], [i \in 1..Len(a) |-> i])
  IN  last[Len(b) + 1]

\* Whether v is a right list of k suggestions for a title
SuggestionsOk(lib, q, k, v) ==
  LET dist  == TLCEval([e \in lib |-> Lev(Lower(q), e.key)])
      nOf(s, d) == Cardinality({e \in lib : e.title = s /\ dist[e] = d})
      inV(s, d) == Cardinality({i \in 1..Len(v) : v[i].s = s /\ v[i].d = d})
  IN  /\ Len(v) = Min2(k, Cardinality(lib))
      /\ \A i \in 1..Len(v) : inV(v[i].s, v[i].d) <= nOf(v[i].s, v[i].d)
      /\ \A i \in 1..(Len(v) - 1) : v[i].d <= v[i + 1].d
      /\ v # <<>> => \A e \in lib : dist[e] < v[Len(v)].d => inV(e.title, dist[e]) = nOf(e.title, dist[e])
=============================================================================
