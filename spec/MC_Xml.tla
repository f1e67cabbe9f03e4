-------------------------------- MODULE MC_Xml ------------------------------
\* C34: collections of a few sets of methods, written in all sorts of ways
EXTENDS ModelBase
CONSTANTS Wide
VARIABLES k, groups, how, edit, text, done

Ms == {[t |-> Some(t), n |-> n, p |-> p] : t \in {T("A Bob Minor"), T("b <&> \"Minor"), T("A Bob Doubles")}, n \in {<<>>, T("A")}, p \in {T("x"), T("+1,6")}}
Group(s, l, d, c, m) == [s |-> s, j |-> FALSE, l |-> l, d |-> d, c |-> c, m |-> m]
OneGroup == {Group(s, l, d, c, <<[t |-> Some(T("Q Minor")), n |-> T("Q"), p |-> T("x")]>>) : s \in {5, 6, 12}, l \in BOOLEAN, d \in BOOLEAN, c \in 0..8}
Few == {Group(s, l, FALSE, 2, m) : s \in {5, 6}, l \in BOOLEAN, m \in Seqs(Ms, 1)}
Few2 == IF Wide THEN Few ELSE {g \in Few : g.s = 6 /\ ~g.l}
\* Ways to write: 0 plain, 1 white space and other elements between those which matter, 2 everything which may be escaped,
\* 3 CDATA sections, 4 an XML declaration, the elements in another order and attributes with false
Pad(kids) == Concat([i \in 1..Len(kids) |-> <<XTx(<<10, 32, 9>>), XEl("notes", <<XAttr("stage", T("8"))>>, <<XTx(T("stage")), XEl("b", <<>>, <<>>)>>), kids[i]>>]) \o <<XTx(<<10>>)>>
Leaf(e) == \A i \in 1..Len(e.kids) : e.kids[i].k = "tx"
RECURSIVE Padded(_)
Padded(e) == IF Leaf(e) /\ e.tag \notin {T("methodSet"), T("collection")} THEN e
             ELSE [e EXCEPT !.kids = Pad([i \in 1..Len(e.kids) |-> Padded(e.kids[i])])]
RECURSIVE Turned(_)
Turned(e) == IF e.k = "tx" THEN e
             ELSE [e EXCEPT !.kids = Reverse([i \in 1..Len(e.kids) |-> Turned(e.kids[i])]),
                            !.attrs = Reverse(IF e.tag = T("classification") /\ e.attrs = <<>> THEN <<XAttr("little", T("false")), XAttr("differential", T("false")), XAttr("id", <<>>)>>
                                              ELSE e.attrs)]
XRefTo(c) == T("&#") \o Digits(c) \o <<59>>
Refs(v)  == Concat([i \in 1..Len(v) |-> XRefTo(v[i])])
CData(v) == T("<![CDATA[") \o v \o T("]]>")
RECURSIVE Written(_, _)
Written(e, style) ==
  IF e.k = "tx" THEN (IF style = 2 THEN Refs(e.v) ELSE CData(e.v))
  ELSE <<60>> \o e.tag \o Concat([i \in 1..Len(e.attrs) |-> <<10>> \o e.attrs[i][1] \o T(" = '") \o XEscape(e.attrs[i][2]) \o <<39>>])
       \o <<62>> \o Concat([i \in 1..Len(e.kids) |-> Written(e.kids[i], style)]) \o T("</") \o e.tag \o T(" >")
Turn(gs) == Turned(XmlDoc(gs))
Doc == CASE how = 0 -> XmlWrite(XmlDoc(groups))
         [] how = 1 -> XmlWrite(Padded(XmlDoc(groups)))
         [] how = 2 -> Written(XmlDoc(groups), 2)
         [] how = 3 -> Written(XmlDoc(groups), 3)
         [] OTHER   -> T("<?xml version=\"1.0\" encoding=\"UTF-8\"?>") \o <<10>> \o XmlWrite(Turn(groups)) \o <<10, 10>>
Without(d, i) == IF i = 0 THEN d ELSE SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))
Init == /\ how \in 0..4 /\ done = FALSE
        /\ k \in 0..2
        /\ groups \in CASE k = 0 -> {<<>>} \cup {<<g>> : g \in OneGroup}
                        [] k = 1 -> {<<g, h>> : g \in Few, h \in Few2}
                        [] OTHER -> {<<Group(6, TRUE, TRUE, 5, <<[t |-> Some(T("Q Minor")), n |-> T("Q"), p |-> T("x16")]>>)>>}
        /\ edit = 0 /\ text = <<>>
\* First the text, then perhaps without one of its characters
Next == \/ /\ text = <<>> /\ \E d \in {Doc} : \E i \in 0..(IF k = 2 THEN Len(d) ELSE 0) : edit' = i /\ text' = Without(d, i)
           /\ UNCHANGED <<k, groups, how, done>>
        \/ text # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<k, groups, how, edit, text>>
           /\ Emit(<<[op |-> "xload", xml |-> text], [op |-> "ljson"], [op |-> "lget", q |-> T("q minor")], [op |-> "lget", q |-> T("A bob MINOR")],
                  [op |-> "lreload"], [op |-> "ljson"]>>)
V == IF text = <<>> THEN DecEither ELSE TLCEval(Collection(text))
\* Documents denote the groups they were made from, however they are written
ReadLaw == text # <<>> /\ edit = 0 => IF Unambiguous(groups)
                       THEN V.t = "ok" /\ LibOfGroups(V.v) = LibOfGroups(groups)
                       ELSE V.t = "either"
\* Writing and reading again gives the same elements
AgainLaw == LET e == TLCEval(XmlParse(text)) IN e.k = "bad" \/ how = 3 \/ XmlParse(XmlWrite(e)) = e
=============================================================================
