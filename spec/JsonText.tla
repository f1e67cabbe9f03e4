------------------------------- MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts (RFC 8259).  JsonParse(s) is the value which a text denotes: *)
(* a record with the field k for its kind.                                 *)
(*                                                                         *)
(*   null   bool b   int x   big   num   str v   arr v   obj v             *)
(*                                                                         *)
(* where x is an integer of up to nine digits, big is one which is longer  *)
(* (with v whether it's negative), num is a number with a fraction or an   *)
(* exponent, and v of an object is the sequence of its fields <<key,       *)
(* value>>.  The kind "bad" means that the text is no JSON.  "odd" stands  *)
(* for texts with a string that isn't Unicode, which parsers may refuse.   *)
(***************************************************************************)
EXTENDS Common

LOCAL JBad     == [k |-> "bad"]
LOCAL At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
LOCAL IsDigit(c) == c \in 48..57
\* A parser gives the value and the position after it
LOCAL Res(v, i) == [v |-> v, i |-> i]
LOCAL Fail      == Res(JBad, 0)

RECURSIVE JWs(_, _)
JWs(s, i) == IF i <= Len(s) /\ s[i] \in {32, 9, 10, 13} THEN JWs(s, i + 1) ELSE i
RECURSIVE JDigits(_, _)
JDigits(s, i) == IF i <= Len(s) /\ s[i] \in 48..57 THEN JDigits(s, i + 1) ELSE i

\* The number with the digits from i until before j
JNat(s, i, j) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, SubSeq(s, i, j - 1))
JNumber(s, i) ==
  LET neg == s[i] = 45
      a   == IF neg THEN i + 1 ELSE i
      b   == JDigits(s, a)
      intOk == b > a /\ (At(s, a) # 48 \/ b = a + 1)
      f   == IF At(s, b) = 46 THEN JDigits(s, b + 1) ELSE b
      fracOk == At(s, b) # 46 \/ f > b + 1
      isExp == At(s, f) \in {69, 101}
      e0  == IF At(s, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      e   == IF isExp THEN JDigits(s, e0) ELSE f
      expOk == ~isExp \/ e > e0
      v == IF f > b \/ isExp \/ (neg /\ b = a + 1 /\ s[a] = 48) THEN [k |-> "num"]
           ELSE IF b - a > 9 THEN [k |-> "big", v |-> neg, len |-> b - a, digits |-> SubSeq(s, a, b - 1)]
           ELSE [k |-> "int", x |-> IF neg THEN -JNat(s, a, b) ELSE JNat(s, a, b)]
  IN  IF intOk /\ fracOk /\ expOk THEN Res(v, e) ELSE Fail

HexOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
\* The number of four hexadecimal digits, or -1
Hex4(s, i) == IF i + 3 > Len(s) \/ \E j \in i..(i + 3) : HexOf(s[j]) < 0 THEN -1
              ELSE ((HexOf(s[i]) * 16 + HexOf(s[i + 1])) * 16 + HexOf(s[i + 2])) * 16 + HexOf(s[i + 3])
Escapes == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
\* The position of the first character from i which ends or interrupts a stretch of plain characters
JPlain(s, i) == LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA c : c \in {34, 92} \/ c < 32)
                IN  IF k = 0 THEN Len(s) + 1 ELSE i + k - 1
\* The rest of a string, after what has been read
RECURSIVE JString(_, _, _)
JString(s, i, acc) ==
  LET j  == JPlain(s, i)
      a2 == acc \o SubSeq(s, i, j - 1)
      c  == At(s, j)
  IN  IF c = 34 THEN Res([k |-> "str", v |-> a2], j + 1)
      ELSE IF c # 92 THEN Fail
      ELSE LET d == At(s, j + 1)
           IN  IF d \in DOMAIN Escapes THEN JString(s, j + 2, Append(a2, Escapes[d]))
               ELSE IF d # 117 THEN Fail
               ELSE LET h == Hex4(s, j + 2)
                        l == IF At(s, j + 6) = 92 /\ At(s, j + 7) = 117 THEN Hex4(s, j + 8) ELSE -1
                    IN  IF h < 0 THEN Fail
                        ELSE IF h \notin 55296..57343 THEN JString(s, j + 6, Append(a2, h))
                        ELSE IF h <= 56319 /\ l \in 56320..57343
                        THEN JString(s, j + 12, Append(a2, 65536 + (h - 55296) * 1024 + (l - 56320)))
                        ELSE Res([k |-> "odd"], Len(s) + 1)

Literals == <<<<T("null"), [k |-> "null"]>>, <<T("true"), [k |-> "bool", b |-> TRUE]>>, <<T("false"), [k |-> "bool", b |-> FALSE]>>>>
JLiteral(s, i) ==
  LET has(x) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
      hits == {n \in 1..3 : has(Literals[n][1])}
  IN  IF hits = {} THEN Fail ELSE LET n == CHOOSE n \in hits : TRUE IN Res(Literals[n][2], i + Len(Literals[n][1]))

RECURSIVE JValue(_, _), JItems(_, _, _), JFields(_, _, _)
\* A value, with white space before it and after it
JValue(s, i0) ==
  LET i == JWs(s, i0)
      c == At(s, i)
      r == CASE c = 34 -> JString(s, i + 1, <<>>)
             [] c = 91 -> IF At(s, JWs(s, i + 1)) = 93 THEN Res([k |-> "arr", v |-> <<>>], JWs(s, i + 1) + 1)
                          ELSE JItems(s, i + 1, <<>>)
             [] c = 123 -> IF At(s, JWs(s, i + 1)) = 125 THEN Res([k |-> "obj", v |-> <<>>], JWs(s, i + 1) + 1)
                           ELSE JFields(s, i + 1, <<>>)
             [] c = 45 \/ IsDigit(c) -> JNumber(s, i)
             [] c \in {110, 116, 102} -> JLiteral(s, i)
             [] OTHER -> Fail
  IN  IF r.v.k \in {"bad", "odd"} THEN r ELSE Res(r.v, JWs(s, r.i))
JItems(s, i, acc) ==
  LET r == JValue(s, i)
      a == Append(acc, r.v)
  IN  IF r.v.k \in {"bad", "odd"} THEN r
      ELSE IF At(s, r.i) = 44 THEN JItems(s, r.i + 1, a)
      ELSE IF At(s, r.i) = 93 THEN Res([k |-> "arr", v |-> a], r.i + 1)
      ELSE Fail
JFields(s, i0, acc) ==
  LET i == JWs(s, i0)
      key == IF At(s, i) = 34 THEN JString(s, i + 1, <<>>) ELSE Fail
      colon == JWs(s, key.i)
      r == IF key.v.k # "str" THEN key ELSE IF At(s, colon) = 58 THEN JValue(s, colon + 1) ELSE Fail
      a == Append(acc, <<key.v.v, r.v>>)
  IN  IF r.v.k \in {"bad", "odd"} THEN r
      ELSE IF At(s, r.i) = 44 THEN JFields(s, r.i + 1, a)
      ELSE IF At(s, r.i) = 125 THEN Res([k |-> "obj", v |-> a], r.i + 1)
      ELSE Fail

JsonParse(s) == LET r == JValue(s, 1) IN IF r.v.k \in {"bad", "odd"} THEN r.v ELSE IF r.i = Len(s) + 1 THEN r.v ELSE JBad

-----------------------------------------------------------------------------
\* Writing values.  Only what JSON requires is escaped.
Hex2(x) == LET d(y) == IF y < 10 THEN 48 + y ELSE 87 + y IN <<d(x \div 16), d(x % 16)>>
JChar(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c < 32 -> T("\\u00") \o Hex2(c) [] OTHER -> <<c>>
JQuote(v) == <<34>> \o Concat([i \in 1..Len(v) |-> JChar(v[i])]) \o <<34>>
RECURSIVE Joined(_)
Joined(parts) == IF parts = <<>> THEN <<>>
                 ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<44>> \o Joined(Tail(parts))
RECURSIVE JsonWrite(_)
JsonWrite(v) ==
  CASE v.k = "null" -> T("null")
    [] v.k = "bool" -> IF v.b THEN T("true") ELSE T("false")
    [] v.k = "int"  -> IF v.x < 0 THEN <<45>> \o Digits(-v.x) ELSE Digits(v.x)
    [] v.k = "str"  -> JQuote(v.v)
    [] v.k = "arr"  -> <<91>> \o Joined([i \in 1..Len(v.v) |-> JsonWrite(v.v[i])]) \o <<93>>
    [] v.k = "obj"  -> <<123>> \o Joined([i \in 1..Len(v.v) |-> JQuote(v.v[i][1]) \o <<58>> \o JsonWrite(v.v[i][2])]) \o <<125>>
=============================================================================
