------------------------------- MODULE MC_Json ------------------------------
\* C29: all the texts which are one edit (or, thorough, a deletion and another edit) away from a
\* library, and all the libraries with one or two fields of the wrong kind
EXTENDS ModelBase
CONSTANTS Edits
VARIABLES s, k, done

BaseText == LibText(<<[s |-> 5, j |-> TRUE, l |-> FALSE, d |-> FALSE, c |-> 2,
                   m |-> <<[t |-> None, n |-> <<65, 10>>, p |-> T("1")]>>]>>)
Alphabet == {123, 125, 91, 93, 58, 44, 34, 92, 32, 48, 45, 46, 101, 110, 1, 233}
Doc(x) == JObj(<<<<T("groups"), x>>>>)
Values == {[k |-> "null"], [k |-> "bool", b |-> TRUE], JInt(1), JInt(0), JInt(-1), JInt(8), JInt(9), JInt(256), JStr(<<>>), JStr(T("1")), JArr(<<>>), JObj(<<>>),
           JArr(<<JInt(1)>>), JArr(<<JObj(<<>>)>>)}
Put(fields, i, v) == IF v.k = "absent" THEN SubSeq(fields, 1, i - 1) \o SubSeq(fields, i + 1, Len(fields))
                     ELSE [fields EXCEPT ![i] = <<@[1], v>>]
GoodMethod == <<<<T("n"), JStr(T("A"))>>, <<T("p"), JStr(T("1"))>>, <<T("t"), [k |-> "null"]>>, <<T("z"), JInt(1)>>>>
GoodGroup(m) == <<<<T("s"), JInt(5)>>, <<T("c"), JInt(2)>>, <<T("j"), [k |-> "bool", b |-> FALSE]>>, <<T("l"), [k |-> "bool", b |-> TRUE]>>,
                  <<T("d"), [k |-> "bool", b |-> TRUE]>>, <<T("y"), JArr(<<>>)>>, <<T("m"), JArr(<<m>>)>>>>
Vals == Values \cup {[k |-> "absent"]}
Docs == {Doc(v) : v \in Values} \cup Values
        \cup {Doc(JArr(<<JObj(Put(GoodGroup(JObj(GoodMethod)), i, v))>>)) : i \in 1..7, v \in Vals}
        \cup {Doc(JArr(<<JObj(GoodGroup(JObj(Put(GoodMethod, i, v))))>>)) : i \in 1..4, v \in Vals}
        \cup {Doc(JArr(<<JObj(Put(Put(GoodGroup(JObj(GoodMethod)), i, v), 8 - i, w))>>)) : i \in 1..3, v \in Vals, w \in {[k |-> "null"], JInt(3)}}
        \* a field twice, or in capitals
        \cup {Doc(JArr(<<JObj(Append(GoodGroup(JObj(GoodMethod)), f))>>)) : f \in {<<T("s"), JInt(5)>>, <<T("S"), JInt(5)>>, <<<<>>, JInt(0)>>}}
Replaced(x, i, c) == [x EXCEPT ![i] = c]
Inserted(x, i, c) == SubSeq(x, 1, i) \o <<c>> \o SubSeq(x, i + 1, Len(x))
Deleted(x, i)     == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
Init == done = FALSE /\ k \in 0..Edits /\ IF k = 0 THEN \E d \in Docs : s = JsonWrite(d) ELSE s = BaseText
Ask == <<[op |-> "lload", json |-> s], [op |-> "lget", q |-> <<97, 10>> \o T(" jump bob doubles")], [op |-> "lget", q |-> T("A Differential Little Bob DOUBLES")],
         [op |-> "ljson"], [op |-> "lreload"], [op |-> "ljson"]>>
Next == \/ /\ k > 0 /\ k' = k - 1 /\ done' = FALSE
           /\ \/ \E i \in 1..Len(s), c \in Alphabet : s' = Replaced(s, i, c) /\ k = 1
              \/ \E i \in 0..Len(s), c \in Alphabet : s' = Inserted(s, i, c) /\ k = 1
              \/ \E i \in 1..Len(s) : s' = Deleted(s, i)
        \/ k = 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<s, k>> /\ Emit(Ask)
V == TLCEval(JsonParse(s))
RECURSIVE Plain(_)
\* Made of values which JsonWrite can write
Plain(v) == CASE v.k \in {"null", "bool", "int", "str"} -> TRUE
              [] v.k = "arr" -> \A i \in 1..Len(v.v) : Plain(v.v[i])
              [] v.k = "obj" -> \A i \in 1..Len(v.v) : Plain(v.v[i][2])
              [] OTHER -> FALSE
WriteLaw == Plain(V) => JsonParse(JsonWrite(V)) = V
\* What was read is described by what would be written
DescribeLaw == LET d == Decoded(s) IN d.t = "ok" => LET lib == LibOfGroups(d.v)
                                                     IN  LibOk(lib) /\ Describes(LibText([i \in 1..Cardinality(lib) |-> EntryGroup(SetToSeq(lib)[i])]), lib)
=============================================================================
