------------------------------ MODULE MC_Names ------------------------------
\* C07, C20, C31: names of bells and stages, titles, serialized bells and stages
EXTENDS ModelBase
VARIABLES ev, done

ClsOf(f, c) == [j |-> f[1], l |-> f[2], d |-> f[3], c |-> c]
AllCls == {ClsOf(f, c) : f \in BOOLEAN \X BOOLEAN \X BOOLEAN, c \in 0..8}
DInt(x)  == [k |-> "int", x |-> x, s |-> <<>>]
DText(s) == [k |-> "text", x |-> 0, s |-> s]
Quoted(s) == <<34>> \o s \o <<34>>
Hows == {"bell", "stage", "bell_value", "stage_value"}
Cased(s) == {s, Lower(s), [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]}
Cases ==
  {[op |-> "bell_char", c |-> c] : c \in 0..127}
  \cup {[op |-> "bell_idx", x |-> x] : x \in 0..40}
  \cup {[op |-> "bell_num", x |-> x] : x \in 0..40}
  \cup {[op |-> "bell_cmp", x |-> x, y |-> y] : x, y \in 0..4}
  \cup {[op |-> "stage_num", x |-> x] : x \in 0..40}
  \cup {[op |-> "stage_cmp", x |-> x, y |-> y] : x, y \in 1..4}
  \cup {[op |-> "stage_name", s |-> s] : s \in UNION {Cased(StageNames[n]) : n \in 1..22}}
  \cup {[op |-> "rowstr", a |-> r] : r \in RowsUpTo(4)}
  \cup {[op |-> "title", name |-> nm, cls |-> c, n |-> n] : nm \in {<<>>, T("A B")}, c \in AllCls, n \in {1, 2, 22, 23}}
  \cup {[op |-> "title", name |-> T("A"), cls |-> ClsOf(<<FALSE, FALSE, FALSE>>, 5), n |-> n] : n \in 1..40}
  \cup {[op |-> "clsdisp", cls |-> c] : c \in AllCls}
  \cup {[op |-> "clsinfo", c |-> c] : c \in 0..8}
  \cup {[op |-> "sd_ser", x |-> x, how |-> h] : x \in 1..60, h \in {"bell", "stage"}}
  \cup {[op |-> "sd_json", s |-> Digits(x), how |-> h, d |-> DInt(x)] : x \in 0..60, h \in Hows}
  \cup {[op |-> "sd_json", s |-> <<45>> \o Digits(x), how |-> h, d |-> DInt(-x)] : x \in 1..20, h \in Hows}
  \cup {[op |-> "sd_bin", bytes |-> LeBytes(x, 8), how |-> h, d |-> DInt(x)] : x \in 0..60, h \in {"bell", "stage"}}
  \cup {[op |-> "sd_json", s |-> Quoted(s), how |-> h, d |-> DText(s)] :
          s \in {<<c>> : c \in 35..91} \cup {<<c, d>> : c \in 48..51, d \in 65..68} \cup {<<>>}
                \cup UNION {Cased(StageNames[n]) : n \in 1..22}, h \in Hows}
Init == ev \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ ev' = ev /\ Emit(<<ev>>)

NameLaws ==
  /\ \A x, y \in 1..NumBellNames : BellNames[x] = BellNames[y] => x = y
  /\ \A x, y \in 1..Len(StageNames) : LowerStageNames[x] = LowerStageNames[y] => x = y
  /\ \A c, d \in 0..8 : ClassName(c) = ClassName(d) => c = d
  /\ \A c, d \in AllCls : ClassText(c) = ClassText(d) => c = d
EndsWith(s, e) == Len(e) <= Len(s) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
ASSUME NameLaws
Law ==
  CASE ev.op = "bell_char" -> BellOf(ev.c) >= 0 => BellChar(BellOf(ev.c)) = ev.c /\ BellText(BellOf(ev.c)) = <<ev.c>>
    [] ev.op = "bell_idx"  -> ev.x < NumBellNames => BellOf(BellChar(ev.x)) = ev.x
    [] ev.op = "stage_num" -> ev.x \in 1..22 => StageOfLower(Lower(StageText(ev.x))) = ev.x
    [] ev.op = "stage_name" -> StageOfLower(ev.s) # 0 => Lower(StageText(StageOfLower(ev.s))) = ev.s
    [] ev.op = "rowstr" -> BellsIn(RowText(ev.a)) = ev.a
    [] ev.op = "title" ->
         LET t == Title(ev.name, ev.cls, ev.n)
         IN  /\ SubSeq(t, 1, Len(ev.name)) = ev.name
             /\ EndsWith(t, StageText(ev.n))
             /\ \A i \in 1..(Len(t) - 1) : ~(t[i] = 32 /\ t[i + 1] = 32)
             /\ t[1] # 32
             \* it can be looked up: the stage is the last word
             /\ ev.n <= 22 => StageOfLower(LastWord(Lower(t))) = ev.n
    [] ev.op = "sd_ser" -> De(ev.how, DInt(SerNumber(ev.how, ev.x))) = Ok(ev.x)
    [] ev.op = "sd_json" -> LET h == IF ev.how \in {"bell", "bell_value"} THEN "bell" ELSE "stage"
                                r == De(h, ev.d)
                            IN  r.t = "ok" => IF ev.d.k = "int" THEN SerNumber(h, r.v) = ev.d.x
                                              ELSE Lower(IF h = "bell" THEN BellText(r.v) ELSE StageText(r.v)) = Lower(ev.d.s)
    [] OTHER -> TRUE
=============================================================================
