------------------------------ MODULE Bellframe -----------------------------
(***************************************************************************)
(* The API of bellframe as a state machine.  The state is a collection of  *)
(* registers; an event is one call.  Step(st, ev, r) is the next state,    *)
(* and whether r is a right result of the call:                            *)
(*                                                                         *)
(*   ok    whether r is allowed                                            *)
(*   s     the state after the call (which never depends on r, except      *)
(*         where the API leaves a choice)                                  *)
(*   exp   the allowed results, if they can be listed                      *)
(***************************************************************************)
EXTENDS Cache, Messages, Serde, XmlText

InitState ==
  [rows |-> <<Rounds(1), Rounds(1), Rounds(1)>>,
   vecs |-> <<Vec(1, <<>>), Vec(1, <<>>), Vec(1, <<>>)>>,
   blks |-> <<EmptyBlk(1), EmptyBlk(1), EmptyBlk(1)>>,
   reps |-> <<<<>>, <<>>>>,                       \* each <<>> or <<repeat>>
   accs |-> <<Rounds(1), Rounds(1)>>,
   masks |-> <<<<Free>>, <<Free>>>>,
   meth |-> <<>>,                                 \* <<>> or <<method>>
   lib  |-> <<>>,                                 \* <<>> or <<library>>
   cf |-> NoCache, sv |-> NoServer]               \* where the Central Council's library comes from

\* What always holds of the state
StateOk(st) ==
  /\ \A i \in 1..3 : IsRow(st.rows[i]) /\ VecOk(st.vecs[i]) /\ BlkOk(st.blks[i])
  /\ \A i \in 1..2 : IsRow(st.accs[i])
  /\ \A i \in 1..2 : st.reps[i] # <<>> /\ BlkLen(st.reps[i][1].b) # 0 => IsRow(RepRow(st.reps[i][1]))
  /\ \A i \in 1..Len(st.meth) : MethodOk(st.meth[i])
  /\ \A i \in 1..Len(st.lib) : LibOk(st.lib[i])

\* Results of different kinds are never compared in detail
Same(a, b) == a.t = b.t /\ a = b

RowOrNone(rows, x) == IF x < Len(rows) THEN rows[x + 1] ELSE <<>>
AnnotAt(b, x) == IF x < BlkLen(b) THEN Some(b.an[x + 1]) ELSE None
AnnotRowAt(b, x) == IF x < BlkLen(b) THEN [t |-> "some", r |-> b.rows[x + 1], a |-> b.an[x + 1]] ELSE None
PnInfo(pn) == [n |-> pn.n, pl |-> pn.pl, cross |-> pn.pl = <<>>, int |-> HasInternal(pn), str |-> PnText(pn)]
PnErr(f)   == [t |-> "err", e |-> f]
ParityOf(p) == p
PnBlockOk(r, parse, n) == /\ parse.ok /\ r.t = "ok"
                          /\ r.v = [n |-> n, len |-> Len(parse.pns), pns |-> parse.pns, sts |-> TRUE]
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
IsHuge(x) == x >= Huge
\* Values are equal where their contents are, however they were made
SameContent(kind, a, b) ==
  CASE kind = "regex" -> Normal(a) = Normal(b)
    [] OTHER -> a = b
\* Empty buffers have a stage, which may or may not tell them apart
OpenContent(kind, a, b) == kind = "vec" /\ a.rows = <<>> /\ b.rows = <<>>
OrderedKinds == {"row", "bell", "stage", "hunt"}
ContentOrder(kind, a, b) ==
  CASE kind = "row" -> Lex(a, b)
    [] kind \in OrderedKinds -> Sign(a - b)
    [] OTHER -> 0
\* Bells and stages whose names would be too long to write are not printed
TextOfBell(x) == IF x > 1073741824 THEN <<>> ELSE BellText(x)

Step(st, ev, r) ==
  LET Det(e, s) == [ok |-> Same(e, r), s |-> s, exp |-> {e}]
      Any1(S, s) == [ok |-> \E e \in S : Same(e, r), s |-> s, exp |-> S]
      If(p, s)  == [ok |-> p, s |-> s, exp |-> {}]
      Ans(v)    == Det(Ok(v), st)
      Mis       == Det(Err, st)
      IsOk(p(_)) == If(r.t = "ok" /\ p(r.v), st)
      I == ev.i + 1
      J == ev.j + 1
      K == ev.k + 1
      row(x) == st.rows[x]
      vec(x) == st.vecs[x]
      blk(x) == st.blks[x]
      m      == st.meth[1]
      lib    == st.lib[1]
      setRow(x, v)  == [st EXCEPT !.rows[x] = v]
      setVec(x, v)  == [st EXCEPT !.vecs[x] = v]
      setBlk(x, v)  == [st EXCEPT !.blks[x] = v]
      setAcc(x, v)  == [st EXCEPT !.accs[x] = v]
      rowOut(o)  == Det([t |-> o.r, post |-> o.s], setRow(I, o.s))
      vecOut(o)  == Det([t |-> o.r, post |-> o.s], setVec(I, o.s))
      blkOut(o)  == Det([t |-> o.r, post |-> o.s], setBlk(I, o.s))
      same(a, b) == Len(a) = Len(b)
      mathErr(k, o) == [t |-> "err", k |-> k, o |-> o]
      how == ev.how
  IN
  CASE
  \* ---- making rows ----
       ev.op \in {"row_parse", "row_fromstr"} -> Any1(MakeRow(BellsIn(ev.s)), st)
    [] ev.op \in {"row_vec", "row_iter"}      -> Any1(MakeRow(ev.v), st)
    [] ev.op = "row_parse_st" -> Any1(MakeRowSt(BellsIn(ev.s), ev.n), st)
    [] ev.op = "row_vec_st"   -> Any1(MakeRowSt(ev.v, ev.n), st)
    [] ev.op = "row_raw" -> Ans(ev.a)
    [] ev.op = "row_std" -> Ans(CASE how = "rounds" -> Rounds(ev.n)
                                  [] how = "backrounds" -> Backrounds(ev.n)
                                  [] how = "queens" -> Queens(ev.n))
  \* ---- row registers ----
    [] ev.op = "gset" -> Det(Ok(ev.a), setRow(I, ev.a))
    [] ev.op = "gmul" ->
         LET a == row(I)  b == row(J)  o == row(K)
             mism == same(a, b) = FALSE
             errs == (IF mism THEN {"rhs"} ELSE {})
                     \cup (IF how = "into_row" /\ ~same(a, o) THEN {"into"} ELSE {})
             v == CASE how = "ax" -> SolveAX(a, b) [] how = "xa" -> SolveXA(a, b) [] OTHER -> Mul(a, b)
         IN  IF errs # {} THEN Any1({[t |-> "err", k |-> e, post |-> o] : e \in errs}, st)
             ELSE Det([t |-> "ok", k |-> "", post |-> v], setRow(K, v))
    [] ev.op = "ginv" ->
         IF how = "into" /\ ~same(row(I), row(K)) THEN Det([t |-> "err", post |-> row(K)], st)
         ELSE LET v == Inv(row(I)) IN Det([t |-> "ok", post |-> v], setRow(K, v))
    [] ev.op = "gcopy" -> Det([t |-> "ok", post |-> row(I)], setRow(K, row(I)))
    [] ev.op = "gswap" ->
         IF ev.x >= Len(row(I)) \/ ev.y >= Len(row(I)) THEN Det(Panic, st)
         ELSE rowOut(Out("ok", Swapped(row(I), ev.x, ev.y)))
    [] ev.op = "gext" -> IF ev.n < Len(row(I)) THEN Det(Panic, st) ELSE rowOut(Out("ok", Extended(row(I), ev.n)))
    [] ev.op = "gperm" -> IF ev.pn.n # Len(row(I)) THEN rowOut(Out("err", row(I)))
                          ELSE rowOut(Out("ok", Apply(ev.pn, row(I))))
  \* ---- row algebra ----
    [] ev.op = "mul" ->
         LET intoRow == how \in {"into_row", "into_row_unchecked"}
             into    == intoRow \/ how \in {"into", "into_unchecked"}
             op      == how \in {"rr", "rb", "br", "bb"}
             v       == Mul(ev.a, ev.b)
         IN  IF op /\ ~same(ev.a, ev.b) THEN Det(Panic, st)
             ELSE IF ~same(ev.a, ev.b) \/ (intoRow /\ ~same(ev.a, ev.o))
             THEN Any1({mathErr(IF intoRow THEN k ELSE "", ev.o) :
                          k \in (IF same(ev.a, ev.b) THEN {} ELSE {"rhs"})
                                \cup (IF same(ev.a, ev.o) THEN {} ELSE {"into"})}, st)
             ELSE Det([t |-> "ok", v |-> v, o |-> IF into THEN v ELSE ev.o], st)
    [] ev.op = "inv" ->
         LET v == Inv(ev.a)
         IN  IF how = "into" /\ ~same(ev.a, ev.o) THEN Det(mathErr("", ev.o), st)
             ELSE Det([t |-> "ok", v |-> v, o |-> IF how \in {"into", "into_buf"} THEN v ELSE ev.o], st)
    [] ev.op = "pow" -> Ans(Pow(ev.a, ev.e))
    [] ev.op = "solve" ->
         IF ~same(ev.a, ev.b) THEN Mis
         ELSE Ans(IF how = "ax" THEN SolveAX(ev.a, ev.b) ELSE SolveXA(ev.a, ev.b))
  \* ---- families of rows ----
    [] ev.op = "closure" -> Ans(IF how = "self" THEN Closure(ev.a) ELSE ClosureFromRounds(ev.a))
    [] ev.op = "cart" ->
         LET all   == Concat(ev.sets)
             empty == ev.sets = <<>> \/ \E i \in 1..Len(ev.sets) : ev.sets[i] = <<>>
         IN  IF empty THEN Any1({Ok(<<>>)} \cup (IF SameStageSeq(all) THEN {} ELSE {Err}), st)
             ELSE IF ~SameStageSeq(all) THEN Mis
             ELSE IsOk(LAMBDA v : SameBag(v, CartProduct(ev.sets)))
    [] ev.op = "lgroup" ->
         IF ~SameStageSeq(ev.rows) THEN Mis
         ELSE IsOk(LAMBDA v : Rng(v) = LeastGroup(Rng(ev.rows)) /\ Len(v) = Cardinality(Rng(v)))
    [] ev.op = "isgroup" -> IF ~SameStageSeq(ev.rows) THEN Mis ELSE Ans(IsGroup(Rng(ev.rows)))
  \* ---- looking at rows ----
    [] ev.op = "inspect" ->
         LET a == ev.a  n == Len(a)
         IN  Ans([stage |-> n, rounds |-> a = Rounds(n), back |-> a = Backrounds(n),
                  eff |-> EffectiveStage(a), fixed |-> FixedBells(a), slice |-> a, iter |-> a,
                  riter |-> Reverse(a), into |-> a, intor |-> a, ilen |-> n, index |-> a, unch |-> a,
                  places |-> [b \in 1..(n + 2) |-> PlaceOf(a, b - 1)], far |-> -1,
                  owned |-> a, rc |-> a, arc |-> a, vec |-> a, asref |-> a, amut |-> a, borrow |-> a,
                  par |-> Parity(a)])
    [] ev.op = "row_index" -> IF ev.p < Len(ev.a) THEN Ans(ev.a[ev.p + 1]) ELSE Det(Panic, st)
    [] ev.op = "parity2" -> LET p == Parity(ev.a)  q == Parity(ev.b)
                            IN  Ans([a |-> p, b |-> q, ab |-> (p + q) % 2, prod |-> (p + q) % 2])
    [] ev.op = "parity_num" ->
         LET p == IF ev.x \in {MaxUsize, 2147483644, 2147483643, 2147483640} THEN 1
                  ELSE IF ev.x >= SpecialLow THEN 0 ELSE ev.x % 2
         IN  Ans([p |-> p, q |-> p, z |-> p, cast |-> p, c |-> IF p = 0 THEN 43 ELSE 45])
    [] ev.op = "swap" ->
         IF ev.x >= Len(ev.a) \/ ev.y >= Len(ev.a) THEN Det(Panic, st)
         ELSE Ans([v |-> Swapped(ev.a, ev.x, ev.y),
                   par |-> IF ev.x = ev.y THEN Parity(ev.a) ELSE 1 - Parity(ev.a)])
  \* ---- comparing rows ----
    [] ev.op = "rowcmp" ->
         LET eq == ev.a = ev.b
             o  == Lex(ev.a, ev.b)
         IN  IsOk(LAMBDA v : /\ v.eq = Repeat(eq, 6)
                             /\ v.ord = Repeat(o, 4)
                             /\ v.look = Repeat(eq, 5)
                             /\ eq => v.hash = Repeat(TRUE, 4)
                             /\ v.self = <<TRUE, TRUE>>
                             /\ eq => v.fast
                             /\ ~eq /\ same(ev.a, ev.b) /\ Len(ev.a) <= 16 => ~v.fast)
    [] ev.op = "fhash_all" ->
         LET f == FoldLeft(LAMBDA x, k : x * k, 1, [k \in 1..ev.n |-> k])
         IN  Ans([rows |-> f, hashes |-> f])
    [] ev.op = "fhash_perm" ->                                      \* different places of a row of up to 16 bells
         LET f == FoldLeft(LAMBDA x, k : x * k, 1, [k \in 1..Len(ev.at) |-> k])
         IN  Ans([rows |-> f, hashes |-> f])
    [] ev.op = "fhash_many" -> IsOk(LAMBDA v : v.rows \in 1..ev.m /\ v.hashes = v.rows)
    [] ev.op = "fhash_set" -> Ans(Cardinality(Rng(ev.rows)))     \* rows of one stage, up to 16
    [] ev.op = "fhash" -> Ans(TRUE)
  \* ---- names ----
    [] ev.op = "bell_char" -> IF BellOf(ev.c) < 0 THEN Det(None, st) ELSE Ans([i |-> BellOf(ev.c), c |-> ev.c])
    [] ev.op = "bell_chars" -> Ans(LET cs == SelectSeq([i \in 1..128 |-> i - 1],
                                               LAMBDA c : BellOf(c) >= 0 /\ c >= ev.lo /\ c < ev.hi)
                                   IN  [i \in 1..Len(cs) |-> <<cs[i], BellOf(cs[i])>>])
    [] ev.op = "bell_idx" ->
         Ans([i |-> ev.x, num |-> IF ev.x = MaxUsize THEN -2 ELSE IF ev.x = MaxUsize - 1 THEN MaxUsize
                                  ELSE IF ev.x = 2147483644 THEN 2147483645
                                  ELSE IF ev.x >= SpecialLow THEN Huge ELSE ev.x + 1,
              c |-> BellChar(ev.x), name |-> TextOfBell(ev.x), disp |-> TextOfBell(ev.x), eq |-> TRUE])
    [] ev.op = "bell_cmp" -> LET o == Sign(ev.x - ev.y) IN Ans([eq |-> o = 0, ord |-> o, pord |-> o])
    [] ev.op = "bell_num" -> IF ev.x = 0 THEN Det(None, st) ELSE Ans(Pred(ev.x))
    [] ev.op = "bell_arith" -> Ans(IF how \in {"add", "add_assign"} THEN ev.x + ev.d ELSE ev.x - ev.d)
    [] ev.op = "stage_num" ->
         IF ev.x = 0 THEN Mis
         ELSE Ans([n |-> ev.x, u |-> ev.x, even |-> ev.x % 2 = 0,
                   name |-> IF StageHasName(ev.x) THEN Some(StageNames[ev.x]) ELSE None,
                   disp |-> StageText(ev.x),
                   dbg |-> IF ev.x <= 16 THEN T("Stage::") \o StageDebugNames[ev.x]
                           ELSE T("Stage(") \o Digits(ev.x) \o T(")"),
                   tenor |-> ev.x - 1, tenor2 |-> ev.x - 1,
                   bells |-> IF ev.x <= 300 THEN Rounds(ev.x) ELSE <<>>, new |-> TRUE])
    [] ev.op = "stage_new" -> IF ev.x = 0 THEN Det(Panic, st) ELSE Ans(ev.x)
    [] ev.op = "stage_const" -> Ans(StageConsts)
    [] ev.op = "stage_cmp" -> LET o == Sign(ev.x - ev.y)
                              IN  Ans([eq |-> o = 0, ord |-> o, test |-> o = 0, opt |-> <<TRUE, o = 0>>,
                                       set |-> <<ev.x, ev.x>>])
    [] ev.op = "stage_name" -> LET n == StageOfLower(ev.s) IN IF n = 0 THEN Det(None, st) ELSE Ans(n)
    [] ev.op = "rowstr" ->
         LET t == RowText(ev.a)
         IN  IsOk(LAMBDA v : /\ v.s = t /\ v.r = t
                             /\ Len(ev.a) <= NumBellNames => v.back = Ok(ev.a))
  \* ---- row buffers ----
    [] ev.op = "vnew" -> vecOut(Out("ok", CASE how \in {"new", "cap"} -> Vec(ev.n, <<>>)
                                            [] how = "buf" -> Vec(Len(ev.a), <<ev.a>>)
                                            [] how = "lit" -> Vec(ev.n, ev.rows)))
    [] ev.op = "vpush" -> vecOut(VecPush(vec(I), ev.a))
    [] ev.op = "vpop"  -> LET o == VecPop(vec(I))
                          IN  Det(IF o.r.t = "none" THEN [t |-> "none", post |-> o.s]
                                  ELSE [t |-> "some", v |-> o.r.v, post |-> o.s], setVec(I, o.s))
    [] ev.op = "vext"  -> vecOut(CASE how = "rows" -> VecExtend(vec(I), ev.rows)
                                   [] how = "vec" -> VecExtend(vec(I), vec(J).rows)
                                   [] how = "buf" -> VecExtendBuf(vec(I), vec(J)))
    [] ev.op = "vexttr" -> vecOut(VecExtendTransposed(vec(I), ev.a, vec(J),
                                     IF how = "all" THEN <<"full", 0, 0>> ELSE ev.rg))
    [] ev.op = "vextw" -> vecOut(VecExtendWithin(vec(I), ev.rg, ev.a))
    [] ev.op = "vpre"  -> vecOut(VecPreMul(vec(I), ev.a))
    [] ev.op = "vpremd" -> LET o == VecPreMul(vec(J), ev.a)
                           IN  IF o.r = "err" THEN vecOut(Out("err", vec(I))) ELSE vecOut(o)
    [] ev.op = "vsplit" ->
         LET s == VecSplit(vec(I), ev.x)
             w == IF I = J THEN <<s[2], s[2]>> ELSE s
         IN  IF s = <<>> THEN Det(None, st)
             ELSE Det([t |-> "some", a |-> w[1], b |-> w[2]], [st EXCEPT !.vecs[I] = s[1], !.vecs[J] = s[2]])
    [] ev.op = "vget" ->
         LET n == Len(vec(I).rows)
             g == CASE how \in {"first", "first_mut"} -> VecGet(vec(I), 0)
                    [] how \in {"last", "last_mut"} -> IF n = 0 THEN None ELSE VecGet(vec(I), n - 1)
                    [] OTHER -> VecGet(vec(I), ev.x)
         IN  Det(IF how = "index" /\ g = None THEN Panic ELSE g, st)
    [] ev.op = "vedit" ->
         LET n == Len(vec(I).rows)
             x == CASE how = "first" -> 0 [] how = "last" -> Max2(n - 1, 0) [] OTHER -> ev.x
         IN  vecOut(VecEdit(vec(I), x, ev.p, ev.q))
    [] ev.op = "vobs" ->
         LET v == vec(I)  l == Len(v.rows)
         IN  Det([t |-> "ok", n |-> v.n, len |-> l, emp |-> l = 0, rows |-> v.rows, into |-> v.rows,
                  get |-> [x \in 1..(l + 2) |-> RowOrNone(v.rows, x - 1)],
                  first |-> RowOrNone(v.rows, 0), last |-> IF l = 0 THEN <<>> ELSE v.rows[l],
                  paths |-> [b \in 1..(v.n + 1) |-> IF b > v.n THEN None ELSE Some(PathOf(v.rows, b - 1))]], st)
    [] ev.op = "veq" -> Ans([eq |-> vec(I) = vec(J), clone |-> TRUE, hash |-> TRUE])
  \* ---- iterators ----
    [] ev.op = "iter" ->
         LET b == blk(I)
             rows == CASE how \in {"vec", "vinto"} -> vec(I).rows
                       [] how = "all_rows" -> b.rows
                       [] how = "rows" -> SubSeq(b.rows, 1, BlkLen(b))
         IN  Ans(IterRun(rows, ev.script))
    [] ev.op = "aiter" ->
         LET b  == blk(I)
             ar == [i \in 1..BlkLen(b) |-> [r |-> b.rows[i], a |-> b.an[i]]]
         IN  Ans([an |-> b.an, rev |-> Reverse(b.an), alen |-> BlkLen(b), ar |-> ar,
                  ar2 |-> SubSeq(ar, 2, Len(ar))])
    [] ev.op = "mparse" -> If(MultiParseOk(ev.s, r, how = "blk"), st)
  \* ---- blocks ----
    [] ev.op = "bnew" ->
         LET put(b) == Det([t |-> "some", post |-> b], setBlk(I, b))
         IN  (CASE how = "empty" -> put(EmptyBlk(ev.n))
               [] how = "idx" -> IF ev.rows = <<>> THEN Det([t |-> "none", post |-> blk(I)], st)
                                 ELSE put(Blk(ev.n, ev.rows, ev.an))
               [] how = "def" -> IF ev.rows = <<>> THEN Det(Panic, st)
                                 ELSE put(Blk(ev.n, ev.rows, Repeat(0, Len(ev.rows) - 1))))
    [] ev.op = "bset" -> blkOut(BlkSetAnnot(blk(I), ev.x, ev.v))
    [] ev.op = "bget" -> Ans([r |-> RowOrNone(blk(I).rows, ev.x), a |-> AnnotAt(blk(I), ev.x),
                              ar |-> AnnotRowAt(blk(I), ev.x)])
    [] ev.op = "bobs" ->
         LET b == blk(I)  l == BlkLen(b)
             path(x) == PathOf(b.rows, x)
         IN  Ans([n |-> b.n, eff |-> BlkEffective(b), emp |-> l = 0, len |-> l,
                  first |-> b.rows[1], left |-> LeftOver(b), far |-> AnnotRowAt(b, 0),
                  rows |-> SubSeq(b.rows, 1, l), all |-> b.rows, an |-> b.an,
                  vec |-> Vec(b.n, b.rows), into |-> Vec(b.n, b.rows),
                  paths |-> [x \in 1..(b.n + 1) |-> IF x > b.n THEN None
                              ELSE [t |-> "some", v |-> SubSeq(path(x - 1), 1, l), l |-> path(x - 1)[l + 1]]],
                  full |-> [x \in 1..(b.n + 1) |-> IF x > b.n THEN None ELSE Some(path(x - 1))]])
    [] ev.op = "bpre" -> blkOut(BlkPreMul(blk(I), ev.a))
    [] ev.op = "bext" -> blkOut(BlkExtend(blk(I), blk(J), IF how = "all" THEN <<"full", 0, 0>> ELSE ev.rg))
    [] ev.op = "bextw" -> blkOut(BlkExtendWithin(blk(I), ev.rg))
    [] ev.op = "bmap" -> blkOut(Out("ok", BlkMap(blk(I),
                            LAMBDA x, a : IF how = "map" THEN a + ev.v ELSE a + ev.v + 10 * x)))
    [] ev.op = "bsplit" ->
         LET s == BlkSplit(blk(I), ev.x)
             w == IF I = J THEN <<s[2], s[2]>> ELSE s
         IN  IF s = <<>> THEN Det(None, st)
             ELSE Det([t |-> "some", a |-> w[1], b |-> w[2]], [st EXCEPT !.blks[I] = s[1], !.blks[J] = s[2]])
    [] ev.op = "beq" -> Ans([eq |-> blk(I) = blk(J), clone |-> TRUE, hash |-> TRUE])
  \* ---- repeating blocks ----
    [] ev.op = "rnew" -> IF Len(ev.a) # blk(J).n THEN Mis
                         ELSE Det([t |-> "ok"], [st EXCEPT !.reps[I] = <<RepNew(blk(J), ev.a)>>])
    [] ev.op = "rnext" -> LET o == RepStep(st.reps[I][1]) IN Det(o.r, [st EXCEPT !.reps[I] = <<o.s>>])
    [] ev.op = "rinto" ->
         LET o == RepStep(st.reps[I][1])
         IN  IF o.r.t = "none" THEN Det([t |-> "none", post |-> row(K)], st)
             ELSE Det([t |-> "some", x |-> o.r.x, a |-> o.r.a, post |-> o.r.v],
                      [st EXCEPT !.reps[I] = <<o.s>>, !.rows[K] = o.r.v])
    [] ev.op = "rclone" -> Det([t |-> "ok"], [st EXCEPT !.reps[J] = st.reps[I]])
    [] ev.op = "rskip" -> LET p == st.reps[I][1]
                          IN  Det(Ok(IF BlkLen(p.b) = 0 THEN 0 ELSE ev.x), [st EXCEPT !.reps[I] = <<RepSkip(p, ev.x)>>])
  \* ---- accumulators ----
    [] ev.op = "anew" -> LET v == IF how = "rounds" THEN Rounds(ev.n) ELSE ev.a
                         IN  Det([t |-> "ok", post |-> v], setAcc(I, v))
    [] ev.op = "aacc" ->
         LET o == CASE how = "pre" -> AccPreMul(st.accs[I], ev.a)
                    [] how = "set" -> AccSet(st.accs[I], ev.a)
                    [] OTHER -> AccMul(st.accs[I], ev.a)
         IN  IF o.r.t = "err" /\ how \in {"mulr", "mulb"} THEN Det(Panic, st)
             ELSE Det([t |-> o.r.t, post |-> o.s], setAcc(I, o.s))
    [] ev.op = "aclone" -> Det([t |-> "ok", post |-> st.accs[I]], setAcc(J, st.accs[I]))
    [] ev.op = "atot" -> Ans([tot |-> st.accs[I], into |-> st.accs[I]])
  \* ---- place notation ----
    [] ev.op = "pn_parse" -> LET p == PnParse(ev.s, ev.n)
                             IN  IF p.ok THEN Ans(PnInfo(p.pn)) ELSE Any1({PnErr(f) : f \in p.faults}, st)
    [] ev.op = "pn_slice" -> LET f == PnFaults(ev.v, ev.n)
                             IN  IF f = {} THEN Ans(PnInfo(MakePn(ev.v, ev.n))) ELSE Any1({PnErr(x) : x \in f}, st)
    [] ev.op = "pn_cross" -> IF ev.n % 2 = 0 THEN Ans(PnInfo(CrossPn(ev.n))) ELSE Det(None, st)
    [] ev.op = "pn_lit" ->
         IsOk(LAMBDA v : /\ v.info = PnInfo(ev.pn) /\ v.tr = Transposition(ev.pn) /\ v.clone
                         /\ (\A p \in Rng(ev.pn.pl) : p < NumBellNames) => v.back)
    [] ev.op = "pn_act" -> IF Len(ev.a) # ev.pn.n THEN Det([t |-> "err", v |-> ev.a], st)
                           ELSE Det([t |-> "ok", v |-> Apply(ev.pn, ev.a)], st)
    [] ev.op = "pn_btw" -> IF Adjacent(ev.a, ev.b) THEN Ans(PnInfo(PnBetween(ev.a, ev.b))) ELSE Det(None, st)
    [] ev.op = "pnb_parse" ->
         LET p == PnBlockParse(ev.s, ev.n)
         IN  If(PnBlockOk(r, p, ev.n) \/ (~p.ok /\ r.t = "err" /\ PnBlockErrOk(ev.s, ev.n, p, r)), st)
    [] ev.op = "pnb_rows" ->
         LET n    == ev.pns[1].n
             from == IF how = "rounds" THEN Rounds(n) ELSE ev.a
         IN  IF Len(from) # n THEN Mis
             ELSE Det([t |-> "ok", n |-> n, rows |-> NotationRows(ev.pns, from),
                       an |-> IF how = "rows" THEN <<>> ELSE Repeat(0, Len(ev.pns))], st)
    [] ev.op = "pnb_vec" ->
         LET e(k, x) == [t |-> "err", k |-> k, x |-> x]
         IN  IF ev.pns = <<>> THEN Det(e("empty", 0), st)
             ELSE IF ~PnStagesOk(ev.pns)
             THEN Any1({e("stage", x - 1) : x \in {y \in 1..Len(ev.pns) : ev.pns[y].n # ev.pns[1].n}}, st)
             ELSE Ans([n |-> ev.pns[1].n, len |-> Len(ev.pns), pns |-> [x \in 1..Len(ev.pns) |-> ev.pns[x].pl]])
  \* ---- methods ----
    [] ev.op = "mnew" ->
         LET made(x) == Det(Ok(MethodInfo(x)), [st EXCEPT !.meth = <<x>>])
             parse  == PnBlockParse(ev.s, ev.n)
         IN  (CASE how = "pns" -> IF parse.ok THEN made(MethodFromPns(ev.name, PnsOf(ev.n, parse.pns)))
                                 ELSE If(r.t = "err" /\ PnBlockErrOk(ev.s, ev.n, parse, r), st)
               [] how = "le"    -> made(MethodWithLeadEnd(ev.name, ev.pns))
               [] how = "named" -> made(NamedMethod(ev.name, ev.n, ev.rows, ev.labels))
               [] how = "new"   -> made(MethodOf(ev.title, ev.name, ev.n, ev.rows, ev.labels)))
    [] ev.op = "minfo" -> Ans(MethodInfo(m))
    [] ev.op = "mrow"  -> Ans(CourseRow(m, ev.x))
    [] ev.op = "mlrow" -> IF ev.x < Len(m.rows) THEN Ans(m.rows[ev.x + 1]) ELSE Det(Panic, st)
    [] ev.op = "mcourse" -> Ans(PlainCourse(m))
    [] ev.op = "mset" -> LET o == IF how = "le" THEN SetLabel(m, 0, LabelLeadEnd) ELSE SetLabel(m, ev.x, ev.label)
                         IN  IF o.r = "panic" THEN Det(Panic, st)
                             ELSE Det(Ok(MethodInfo(o.s)), [st EXCEPT !.meth = <<o.s>>])
    [] ev.op = "mgetl" -> IF ev.x < LeadLen(m) THEN Ans(m.labels[ev.x + 1]) ELSE Det(Panic, st)
    [] ev.op = "mfind" -> Ans(LabelIndices(m, ev.label))
    [] ev.op = "classify" -> Ans(Classify(NotationRows(ev.pns, Rounds(ev.pns[1].n))))
    [] ev.op = "title" -> Ans(Title(ev.name, ev.cls, ev.n))
    [] ev.op = "clsdisp" -> Ans([s |-> ClassText(ev.cls), cls |-> ev.cls, eq |-> TRUE])
    [] ev.op = "clsinfo" -> Ans(ClassInfo(ev.c))
  \* ---- calls ----
    [] ev.op = "call" ->
         LET n == ev.pns[1].n
             b(from) == LET rows == NotationRows(ev.pns, from) IN Blk(n, rows, Repeat(0, Len(ev.pns)))
             c == CASE how = "new" -> CallInfo(ev.not, ev.loc, ev.cov, b(ev.a))
                    [] how = "empty" -> CallInfo(ev.not, ev.loc, ev.cov, EmptyBlk(ev.n))
                    [] how = "bob" -> CallInfo(45, T("LE"), Len(ev.pns), b(Rounds(n)))
                    [] how = "single" -> CallInfo(115, T("LE"), Len(ev.pns), b(Rounds(n)))
         IN  Ans([c |-> c, clone |-> c])
  \* ---- masks ----
    [] ev.op = "mk_parse" -> LET x == MaskParse(ev.s) IN Ans([m |-> x, s |-> MaskText(x), back |-> TRUE])
    [] ev.op = "mk_new" -> Ans(CASE how = "full" -> ev.a
                                 [] how = "empty" -> Repeat(Free, ev.n)
                                 [] how \in {"fix", "fixu"} -> MaskFixed(ev.n, ev.bs))
    [] ev.op = "mk_match" -> LET x == MaskMatches(ev.m, ev.a) IN Ans([m |-> x, r |-> x])
    [] ev.op = "mk_rel" ->
         LET sat == Satisfiable(ev.m) /\ Satisfiable(ev.p)
             com == MaskCompatible(ev.m, ev.p)
         IN  IsOk(LAMBDA v : /\ v.eq = (ev.m = ev.p) /\ v.hash
                             /\ Len(ev.m) # Len(ev.p) => v.sub = FALSE /\ v.com = FALSE /\ v.comb = None
                             /\ sat => /\ v.sub = MaskSubset(ev.m, ev.p)
                                       /\ v.com = com
                                       /\ v.comb = IF com THEN Some(MaskCombined(ev.m, ev.p)) ELSE None)
    [] ev.op = "mk_info" ->
         IsOk(LAMBDA v : /\ v.row = MaskAsRow(ev.m)
                         /\ v.free = FreePlaces(ev.m) /\ v.emp = (NamedBells(ev.m) = <<>>)
                         /\ v.stage = Len(ev.m) /\ v.str = MaskText(ev.m)
                         /\ \A b \in 1..Len(v.places) :
                              IF v.places[b] = -1 THEN CountOf(b - 1, ev.m) = 0
                              ELSE v.places[b] \in 0..(Len(ev.m) - 1) /\ ev.m[v.places[b] + 1] = b - 1)
    [] ev.op = "mk_mul" -> IF ~same(ev.m, ev.a) THEN Det(Panic, st)
                           ELSE Ans(IF how = "rm" THEN RowTimesMask(ev.a, ev.m) ELSE MaskTimesRow(ev.m, ev.a))
    [] ev.op = "mk_set" -> Det(Ok(ev.m), [st EXCEPT !.masks[I] = ev.m])
    [] ev.op = "mk_edit" -> LET o == MaskSet(st.masks[I], ev.b, IF how = "fix" THEN ev.b ELSE ev.p)
                            IN  Det([t |-> o.r, post |-> o.s], [st EXCEPT !.masks[I] = o.s])
  \* ---- regexes ----
    [] ev.op = "rx_parse" -> LET e == Normal(RegexParse(ev.s))
                             IN  IsOk(LAMBDA v : /\ v.e = e /\ v.s = RegexText(e)
                                                 /\ (\A b \in Rng(e) : b < NumBellNames) => v.back)
    [] ev.op = "rx_norm" -> LET e == Normal(ev.e) IN Ans([e |-> e, s |-> RegexText(e), bells |-> NamedBells(e)])
    [] ev.op = "rx_match" -> LET x == RegexMatches(ev.e, ev.a)
                             IN  Ans([m |-> x, pat |-> IF x THEN Some(RegexPlaces(ev.e, ev.a)) ELSE None])
    [] ev.op = "runs" -> IsOk(LAMBDA v : SameBag(v, Runs(how, ev.n, ev.len)))
    [] ev.op = "runs_match" ->
         LET f == FrontRuns(ev.a, ev.len)  b == BackRuns(ev.a, ev.len)  a == NumRunsIn(ev.a, ev.len)
         IN  Ans([front |-> f, back |-> b, all |-> a, ext |-> f + b, fb |-> f + b, int |-> a])
    [] ev.op = "runlen" -> Ans([f |-> RunLen(ev.a), b |-> RunLen(Reverse(ev.a))])
    [] ev.op = "rx_count" -> LET c == RegexCount(ev.e, ev.n) IN Det(IF c = <<-1>> THEN None ELSE Some(c), st)
  \* ---- libraries ----
    [] ev.op = "lload" -> LET d == Decoded(ev.json)
                          IN  (CASE d.t = "ok"  -> Det([t |-> "ok"], [st EXCEPT !.lib = <<TLCEval(LibOfGroups(d.v))>>])
                                 [] d.t = "err" -> Mis
                                 [] OTHER -> If(r.t \in {"ok", "err"}, [st EXCEPT !.lib = <<>>]))
    \* nothing is known of what is in the library
    [] ev.op \in {"lget", "lmap", "lunw", "lsug", "ljson", "lreload"} /\ st.lib = <<>> -> If(r.t # "panic", st)
    [] ev.op = "lget" -> If(LookupOk(lib, ev.q, r, TRUE), st)
    [] ev.op = "lmap" -> If(LookupOk(lib, ev.q, r, r.t = "nf" => r.v = ev.k), st)
    \* unwrapping an unparsable method panics
    [] ev.op = "lunw" -> LET f == IF r.t = "panic" THEN "pn" ELSE r.t
                         IN  If(f \in LookupKinds(lib, ev.q), st)
    [] ev.op = "lsug" -> If(LookupOk(lib, ev.q, r, SuggestionsOk(lib, ev.q, ev.k, r.v)), st)
    [] ev.op = "ljson" -> If(r.t = "ok" /\ Describes(r.v, lib), st)
    \* written and read again
    [] ev.op = "lreload" -> Det([t |-> "ok"], st)
  \* ---- the Central Council's library ----
    [] ev.op = "xload" -> LET d == Collection(ev.xml)
                          IN  IF d.t = "ok" THEN Det([t |-> "ok"], [st EXCEPT !.lib = <<TLCEval(LibOfGroups(d.v))>>])
                              ELSE If(TRUE, [st EXCEPT !.lib = <<>>])
    \* what can be done with the cache is for the world to say
    [] ev.op = "cset" -> LET k  == IF ev.k \in {"file", "link"} THEN "file" ELSE IF ev.k = "dir" THEN "dir" ELSE "none"
                             rd == IF r.t = "ok" THEN r.rd ELSE k = "file" /\ ev.m \in {420, 256}
                             wr == IF r.t = "ok" THEN r.wr ELSE (k = "file" /\ ev.m \in {420, 128}) \/ ev.k = "none"
                         IN  If(TRUE, [st EXCEPT !.cf = [k |-> k, rd |-> rd, wr |-> wr, d |-> ev.d]])
    [] ev.op = "csrv" -> If(TRUE, [st EXCEPT !.sv = [m |-> ev.m, status |-> ev.status, d |-> ev.d, part |-> ev.part]])
    [] ev.op = "cload" -> LET o == CcLoad(st.cf, st.sv)
                          IN  If(LoadOk(st.cf, st.sv, ev.n, r),
                                 IF o.sure THEN [st EXCEPT !.cf = o.cf, !.lib = IF o.lib = <<>> THEN @ ELSE o.lib]
                                 ELSE [st EXCEPT !.lib = <<>>, !.cf = IF r.t = "?" THEN @ ELSE [@ EXCEPT !.k = r.k, !.d = r.d, !.rd = @ \/ st.cf.k = "none"]])
  \* ---- serialization ----
    [] ev.op = "sd_ser" -> Ans([json |-> SerText(how, ev.x), bin |-> SerBytes(how, ev.x),
                                back |-> ev.x, backbin |-> ev.x])
    [] ev.op \in {"sd_bin", "sd_json", "sd_val"} ->
         Det(De(IF how \in {"bell", "bell_value"} THEN "bell" ELSE "stage", ev.d), st)
  \* ---- messages and debug output ----
    [] ev.op = "emsg" -> IsOk(LAMBDA v : MentionsAll(v, Mentioned(how, ev)) /\ v # <<>>)
    [] ev.op = "smis" ->
         LET odd(n) == IF n % 2 = 1 THEN n ELSE n + 1
             x == IF how \in {"pn", "pnn", "rows", "block", "pns"} THEN odd(Len(ev.a)) ELSE Len(ev.a)
             y == IF how = "pns" THEN odd(Len(ev.b)) ELSE Len(ev.b)
         IN  IF x = y THEN Det(None, st)
             ELSE IsOk(LAMBDA v : MentionsAll(v, <<StageText(x), StageText(y)>>))
    [] ev.op = "dbg" ->
         LET parts == CASE how = "bell" -> <<BellText(ev.x)>>
                        [] how \in {"row", "rowbuf"} -> <<RowText(ev.a)>>
                        [] how = "pn" -> <<PnText(ev.pn)>>
                        [] how = "mask" -> <<MaskText(ev.m)>>
                        [] how = "regex" -> <<RegexText(Normal(ev.e))>>
                        [] how = "vec" -> RowTexts(vec(I).rows)
                        [] how = "blk" -> BlkTexts(blk(I))
         IN  IsOk(LAMBDA v : \A x \in 1..2 : MentionsInOrder(v[x], parts))
  \* ---- values of the same content ----
    [] ev.op = "same" ->
         LET eq == SameContent(how, ev.a, ev.b)
             o  == ContentOrder(how, ev.a, ev.b)
         IN  IsOk(LAMBDA v : /\ v.self = Repeat(TRUE, 8)
                             /\ \/ v.eq = Repeat(eq, 5)
                                \/ OpenContent(how, ev.a, ev.b) /\ v.eq = Repeat(v.eq[1], 5)
                             /\ v.eq[1] => v.hash
                             /\ v.ord = IF how \in OrderedKinds THEN Repeat(o, 5) ELSE <<>>)
=============================================================================
