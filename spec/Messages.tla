------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What the messages of errors (row/errors.rs, place_not.rs, stage.rs, ... *)
(* ) and the debug output of rows, buffers, blocks, notations, masks and   *)
(* regexes must tell.  The wording is free: only the names, stages and     *)
(* numbers that it has to mention are specified.                           *)
(***************************************************************************)
EXTENDS Music

\* The first position from i on where p occurs in s, or 0
FindFrom(s, p, i) ==
  LET hits == {k \in i..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p}
  IN  IF hits = {} THEN 0 ELSE SetMin(hits)
Mentions(s, p) == FindFrom(s, p, 1) # 0
MentionsAll(s, parts) == \A k \in 1..Len(parts) : Mentions(s, parts[k])
\* The parts occur one after the other
RECURSIVE InOrderFrom(_, _, _, _)
InOrderFrom(s, parts, k, i) ==
  IF k > Len(parts) THEN TRUE
  ELSE LET f == FindFrom(s, parts[k], i)
       IN  f # 0 /\ InOrderFrom(s, parts, k + 1, f + Len(parts[k]))
MentionsInOrder(s, parts) == InOrderFrom(s, parts, 1, 1)

RowTexts(rows) == [i \in 1..Len(rows) |-> RowText(rows[i])]
\* Each row with its annotation (a natural number), and the row left over
BlkTexts(b) == Concat([i \in 1..Len(b.an) |-> <<RowText(b.rows[i]), Digits(b.an[i])>>])
               \o <<RowText(b.rows[Len(b.rows)])>>

\* What each error is about: x and y are bells, places or lines, n and m stages, at a byte position
Mentioned(how, e) ==
  LET bell == BellText(e.x)  line == Digits(e.y)  sn == StageText(e.n)  sm == StageText(e.m)  at == Digits(e.at)
  IN  CASE how \in {"row_dup", "row_miss", "pn_dup"} -> <<bell>>
        [] how \in {"row_out", "pn_out"} -> <<bell, sn>>
        [] how \in {"stage_inc", "mul_rhs", "mul_into"} -> <<sn, sm>>
        [] how = "pn_amb" -> <<bell, BellText(e.y)>>
        [] how = "pn_cross" -> <<sn>>
        [] how = "pnb_plus" -> <<at>>
        [] how = "pnb_dup" -> <<at, bell>>
        [] how = "pnb_out" -> <<at, bell, sn>>
        [] how = "pnb_amb" -> <<at, bell, BellText(e.y)>>
        [] how = "pnb_cross" -> <<at, sn>>
        [] how = "pnb_none" -> <<at>>
        [] how = "pnv_inc" -> <<line, sn, sm>>
        [] how \in {"vec_dup", "blk_dup", "vec_miss", "blk_miss"} -> <<line, bell>>
        [] how \in {"vec_out", "blk_out"} -> <<line, bell, sn>>
        [] how \in {"vec_none", "blk_none"} -> <<line>>
        [] how \in {"vec_st", "blk_st"} -> <<line, sn, sm>>
        \* nothing more to tell than what has happened
        [] how \in {"row_none", "stage_zero", "pn_none", "pnb_empty", "pnv_empty", "vec_zero", "blk_zero", "blk_empty"} -> <<>>
ErrorKinds == {"row_dup", "row_miss", "row_out", "row_none", "stage_inc", "stage_zero", "mul_rhs", "mul_into", "pn_dup", "pn_out",
               "pn_amb", "pn_cross", "pn_none", "pnb_plus", "pnb_dup", "pnb_out", "pnb_amb", "pnb_cross", "pnb_none", "pnb_empty",
               "pnv_inc", "pnv_empty", "vec_dup", "vec_out", "vec_miss", "vec_none", "vec_st", "vec_zero",
               "blk_dup", "blk_out", "blk_miss", "blk_none", "blk_st", "blk_zero", "blk_empty"}
=============================================================================
