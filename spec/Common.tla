------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Vocabulary shared by every module of the bellframe specification.       *)
(*                                                                         *)
(*  - A bell is its index (0 is the treble).  A row is the non-empty       *)
(*    sequence of the bells in its places.  Places count from 0, so the    *)
(*    bell in place p of row r is r[p + 1].                                *)
(*  - A text is the sequence of its code points.                           *)
(*  - The result of an operation is a record tagged by its field t.        *)
(*  - A natural number of the API is a `usize', which doesn't fit TLC's    *)
(*    integers: the numbers from SpecialLow upwards stand for particular   *)
(*    huge values (see the table in harness/src/exec.rs).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

MaxUsize   == 2147483647      \* stands for usize::MAX
SpecialLow == 2147483640      \* the smallest code of a huge number
Huge       == 2147483001      \* some number which is too big to be written

\* The code of the number one below a huge number
Pred(x) == IF x = MaxUsize THEN MaxUsize - 1 ELSE IF x = 2147483645 THEN 2147483644
           ELSE IF x >= SpecialLow THEN Huge ELSE x - 1

Ok(v)   == [t |-> "ok", v |-> v]
Some(v) == [t |-> "some", v |-> v]
None    == [t |-> "none"]
Err     == [t |-> "err"]
Panic   == [t |-> "panic"]

\* An outcome of an operation: what is reported, and what has become of the thing operated on.
Out(r, s) == [r |-> r, s |-> s]

Rng(s)       == {s[i] : i \in 1..Len(s)}
Min2(a, b)   == IF a < b THEN a ELSE b
Max2(a, b)   == IF a > b THEN a ELSE b
Abs(a)       == IF a < 0 THEN -a ELSE a
SetMax(S)    == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S)    == CHOOSE x \in S : \A y \in S : y >= x
\* The elements of a set of numbers below n in ascending order
Ascending(S, n) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA x : x \in S)
\* All the elements of a set of numbers, in ascending order
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* The concatenation of f[1], f[2], ...
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Repeat(x, n) == [i \in 1..n |-> x]
CountOf(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* Two sequences hold the same elements equally often, in any order
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Rng(a) : CountOf(x, a) = CountOf(x, b)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

-----------------------------------------------------------------------------
\* Texts.  T("abc") is the text of an (ASCII) TLA+ string.
AsciiChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTable  == TLCEval([ch \in {SubSeq(AsciiChars, i, i) : i \in 1..95} |->
                         31 + (CHOOSE i \in 1..95 : SubSeq(AsciiChars, i, i) = ch)])
T(str)     == TLCEval([i \in 1..Len(str) |-> CodeTable[SubSeq(str, i, i)]])

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
\* The byte position of the i-th (from 1) character of a text
BytePos(s, i) == SumSeq([j \in 1..(i - 1) |-> Utf8Len(s[j])])
ByteLen(s)    == BytePos(s, Len(s) + 1)

\* The parts of a text between the occurrences of a separator, as pairs of the positions of the
\* character before the part and the one after it
SplitAt(s, isSep(_)) ==
  LET seps == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : isSep(s[i]))
      ends == <<0>> \o seps \o <<Len(s) + 1>>
  IN  [k \in 1..(Len(ends) - 1) |-> <<ends[k], ends[k + 1]>>]
Part(s, p) == SubSeq(s, p[1] + 1, p[2] - 1)

\* Lower case, for the alphabet that the checks use: ASCII and the letters listed here.  One
\* character may become several.
LowerTable == <<<<201, <<233>>>>, <<216, <<248>>>>, <<193, <<225>>>>, <<220, <<252>>>>,
                <<304, <<105, 775>>>>, <<1046, <<1078>>>>, <<916, <<948>>>>, <<7838, <<223>>>>,
                <<8490, <<107>>>>, <<66560, <<66600>>>> >>
LowerChar(c) ==
  IF c \in 65..90 THEN <<c + 32>>
  ELSE IF c < 128 THEN <<c>>
  ELSE LET hits == {i \in 1..Len(LowerTable) : LowerTable[i][1] = c}
       IN  IF hits = {} THEN <<c>> ELSE LowerTable[CHOOSE i \in hits : TRUE][2]
Lower(s) == FoldLeft(LAMBDA a, c : a \o LowerChar(c), <<>>, s)
=============================================================================
