-------------------------------- MODULE Serde -------------------------------
(***************************************************************************)
(* Serialization of bells and stages.  A serialized value is described by  *)
(* [k, x, s]: its kind, and the number or text that it holds.              *)
(***************************************************************************)
EXTENDS Names

\* The number which is written: one-based for bells
SerNumber(how, x) == IF how = "bell" THEN x + 1 ELSE x
\* ... and its text, and its bytes in a format which isn't self-describing
RECURSIVE LeBytes(_, _)
LeBytes(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o LeBytes(x \div 256, n - 1)
SerText(how, x)  == Digits(SerNumber(how, x))
SerBytes(how, x) == LeBytes(SerNumber(how, x), 8)

\* Reading a number: the index of the bell, the number of bells of the stage, or an error
DeNumber(how, x) == IF x < 1 THEN Err ELSE IF how = "bell" THEN Ok(Pred(x)) ELSE Ok(x)
DeText(how, s) ==
  IF how = "bell" THEN (IF Len(s) = 1 /\ BellOf(s[1]) >= 0 THEN Ok(BellOf(s[1])) ELSE Err)
  ELSE (IF StageOfLower(Lower(s)) # 0 THEN Ok(StageOfLower(Lower(s))) ELSE Err)
De(how, d) == CASE d.k = "int"  -> DeNumber(how, d.x)
                [] d.k = "text" -> DeText(how, d.s)
                [] OTHER        -> Err
=============================================================================
