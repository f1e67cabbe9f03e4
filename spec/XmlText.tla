------------------------------- MODULE XmlText ------------------------------
(***************************************************************************)
(* The Central Council's XML collections of methods.  XmlParse(s) is the   *)
(* root element of a document, within the part of XML which the importer   *)
(* can read: elements, attributes, text, CDATA sections and references to  *)
(* characters, after an optional XML declaration, but no comments,         *)
(* processing instructions, document types or name space prefixes.  An     *)
(* element has its tag, attrs as <<name, value>>, and its kids: elements   *)
(* and pieces of text [k: "tx", v].  The kind "bad" stands for everything  *)
(* else.                                                                   *)
(***************************************************************************)
EXTENDS Library

XAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
XRes(v, i) == [v |-> v, i |-> i]
XFail == XRes([k |-> "bad"], 0)
XStarts(s, i, x) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x

RECURSIVE XWs(_, _)
XWs(s, i) == IF XAt(s, i) \in {32, 9, 10} THEN XWs(s, i + 1) ELSE i
XNameStart == (65..90) \cup (97..122) \cup {95}
XNameChars == XNameStart \cup (48..57) \cup {45, 46}
\* The position after a name
RECURSIVE XNameEnd(_, _)
XNameEnd(s, i) == IF XAt(s, i) \in XNameChars THEN XNameEnd(s, i + 1) ELSE i
XName(s, i) == IF XAt(s, i) \in XNameStart THEN XRes(SubSeq(s, i, XNameEnd(s, i) - 1), XNameEnd(s, i)) ELSE XRes(<<>>, i)
\* The position from i where a text occurs, or 0
RECURSIVE XFind(_, _, _)
XFind(s, i, x) == IF i + Len(x) - 1 > Len(s) THEN 0 ELSE IF XStarts(s, i, x) THEN i ELSE XFind(s, i + 1, x)
\* The character of a reference (starting after the &), or -1, and the position after it
RefNames == <<<<T("amp"), 38>>, <<T("lt"), 60>>, <<T("gt"), 62>>, <<T("quot"), 34>>, <<T("apos"), 39>>>>
XRef(s, i) ==
  LET e    == XFind(s, i, <<59>>)
      body == IF e = 0 \/ e - i > 8 THEN <<>> ELSE SubSeq(s, i, e - 1)
      hits == {n \in 1..5 : RefNames[n][1] = body}
      dec  == SubSeq(body, 2, Len(body))
      hex  == SubSeq(body, 3, Len(body))
      c == IF hits # {} THEN RefNames[CHOOSE n \in hits : TRUE][2]
           ELSE IF Len(body) >= 3 /\ Len(body) <= 6 /\ body[1] = 35 /\ body[2] = 120 /\ \A j \in 1..Len(hex) : HexOf(hex[j]) >= 0
           THEN FoldLeft(LAMBDA a, x : 16 * a + HexOf(x), 0, hex)
           ELSE IF Len(body) \in 2..6 /\ body[1] = 35 /\ \A j \in 1..Len(dec) : dec[j] \in 48..57
           THEN FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, dec)
           ELSE -1
  IN  IF c >= 32 /\ c < 55296 THEN XRes(c, e + 1) ELSE XRes(-1, 0)
\* Text until one of some characters
RECURSIVE XText(_, _, _, _)
XText(s, i, ends, acc) ==
  LET c == XAt(s, i)
  IN  IF c = -1 THEN XFail
      ELSE IF c \in ends THEN XRes([k |-> "tx", v |-> acc], i)
      ELSE IF c = 38 THEN LET r == XRef(s, i + 1) IN IF r.v < 0 THEN XFail ELSE XText(s, r.i, ends, Append(acc, r.v))
      ELSE LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA x : x \in ends \cup {38})
               j == IF k = 0 THEN Len(s) + 1 ELSE i + k - 1
           IN  XText(s, j, ends, acc \o SubSeq(s, i, j - 1))
\* The attributes, and the position after them
RECURSIVE XAttrs(_, _, _)
XAttrs(s, i, acc) ==
  LET j == XWs(s, i)
      n == XName(s, j)
      full == IF XAt(s, n.i) = 58 /\ n.v # <<>> THEN LET m == XName(s, n.i + 1) IN XRes(IF m.v = <<>> THEN <<>> ELSE SubSeq(s, j, m.i - 1), m.i)
              ELSE n
      eq == XWs(s, full.i)
      q  == XWs(s, eq + 1)
      v  == XText(s, q + 1, {XAt(s, q), 60, 10, 9}, <<>>)
  IN  IF XAt(s, j) \in {47, 62} THEN XRes([k |-> "at", v |-> acc], j)
      ELSE IF j = i \/ full.v = <<>> \/ XAt(s, eq) # 61 \/ XAt(s, q) \notin {34, 39} \/ v.v.k = "bad" THEN XFail
      ELSE IF XAt(s, v.i) # XAt(s, q) \/ \E x \in 1..Len(acc) : acc[x][1] = full.v THEN XFail
      ELSE XAttrs(s, v.i + 1, Append(acc, <<full.v, v.v.v>>))
RECURSIVE XElement(_, _), XContent(_, _, _)
\* The element whose < is at i
XElement(s, i) ==
  LET n == XName(s, i + 1)
      a == IF n.v = <<>> THEN XFail ELSE XAttrs(s, n.i, <<>>)
      El(kids) == [k |-> "el", tag |-> n.v, attrs |-> a.v.v, kids |-> kids]
      body == XContent(s, a.i + 1, <<>>)
      close == XName(s, body.i + 2)
      gt == XWs(s, close.i)
  IN  IF a.v.k = "bad" THEN XFail
      ELSE IF XAt(s, a.i) = 47 THEN IF XAt(s, a.i + 1) = 62 THEN XRes(El(<<>>), a.i + 2) ELSE XFail
      ELSE IF body.v.k = "bad" THEN XFail
      ELSE IF close.v = n.v /\ XAt(s, gt) = 62 THEN XRes(El(body.v.v), gt + 1) ELSE XFail
\* What is inside an element, and the position of its end tag
XContent(s, i, acc) ==
  LET c == XAt(s, i)
      d == XAt(s, i + 1)
  IN  IF c = -1 THEN XFail
      ELSE IF c = 60 /\ d = 47 THEN XRes([k |-> "in", v |-> acc], i)
      ELSE IF c = 60 /\ d = 33
      THEN LET e == XFind(s, i + 9, T("]]>"))
           IN  IF XStarts(s, i, T("<![CDATA[")) /\ e # 0
               THEN XContent(s, e + 3, Append(acc, [k |-> "tx", v |-> SubSeq(s, i + 9, e - 1)])) ELSE XFail
      ELSE LET r == IF c = 60 THEN XElement(s, i) ELSE XText(s, i, {60}, <<>>)
           IN  IF r.v.k = "bad" \/ (c # 60 /\ XFind(SubSeq(s, i, r.i - 1), 1, T("]]>")) # 0) THEN XFail
               ELSE XContent(s, r.i, Append(acc, r.v))
XmlParse(s) ==
  LET e == IF XStarts(s, 1, T("<?xml ")) THEN XFind(s, 1, T("?>")) ELSE 0
      i == XWs(s, IF e = 0 THEN 1 ELSE e + 2)
      r == IF XAt(s, i) = 60 THEN XElement(s, i) ELSE XFail
  IN  IF (\E x \in 1..Len(s) : s[x] < 32 /\ s[x] \notin {9, 10}) \/ r.v.k = "bad" \/ XWs(s, r.i) # Len(s) + 1 THEN [k |-> "bad"] ELSE r.v

-----------------------------------------------------------------------------
\* The groups of methods of a document, as in Library; "either" if it isn't a collection
NameSpace == T("http://www.cccbr.org.uk/methods/schemas/2007/05/methods")
Attr(e, name) == LET x == SelectSeq(e.attrs, LAMBDA a : a[1] = T(name)) IN IF x = <<>> THEN None ELSE Some(x[1][2])
Kids(e, tag) == SelectSeq(e.kids, LAMBDA x : x.k = "el" /\ x.tag = T(tag))
XmlText(e) == Concat([i \in 1..Len(e.kids) |-> IF e.kids[i].k = "tx" THEN e.kids[i].v ELSE <<>>])
\* The text of the one child with some tag
KidText(e, tag) == LET x == Kids(e, tag)
                   IN  IF Len(x) = 1 /\ \A i \in 1..Len(x[1].kids) : x[1].kids[i].k = "tx" THEN Dec("ok", XmlText(x[1])) ELSE DecEither
RECURSIVE NoNameSpaces(_)
NoNameSpaces(e) == e.k = "tx" \/ (Attr(e, "xmlns") = None /\ \A i \in 1..Len(e.kids) : NoNameSpaces(e.kids[i]))
XmlClasses == <<<<>>, T("Place"), T("Bob"), T("Treble Bob"), T("Delight"), T("Surprise"), T("Treble Place"), T("Alliance"), T("Hybrid")>>
XmlFlag(e, name) == LET a == Attr(e, name)
                    IN  IF a = None \/ a = Some(T("false")) THEN Dec("ok", FALSE) ELSE IF a = Some(T("true")) THEN Dec("ok", TRUE) ELSE DecEither
XmlStage(t) == IF Len(t) \in 1..3 /\ t[1] # 48 /\ \A i \in 1..Len(t) : t[i] \in 48..57
               THEN Dec("ok", FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, t)) ELSE DecEither
XmlMethod(e) == LET t == KidText(e, "title")
                    n == KidText(e, "name")
                    p == KidText(e, "notation")
                IN  Dec(All(<<t, n, p>>), [t |-> Some(t.v), n |-> n.v, p |-> p.v])
XmlGroup(e) ==
  LET props == Kids(e, "properties")
      p == props[1]
      st == KidText(p, "stage")
      cl == KidText(p, "classification")
      c  == Kids(p, "classification")[1]
      hit == {i \in 1..9 : XmlClasses[i] = cl.v}
      s == XmlStage(st.v)
      l == XmlFlag(c, "little")
      d == XmlFlag(c, "differential")
      ms == TLCEval([i \in 1..Len(Kids(e, "method")) |-> XmlMethod(Kids(e, "method")[i])])
  IN  IF Len(props) # 1 THEN DecEither
      ELSE IF st.t # "ok" \/ cl.t # "ok" THEN DecEither
      ELSE IF hit = {} THEN DecEither
      ELSE Dec(All(<<s, l, d>> \o ms),
               [s |-> s.v, j |-> FALSE, l |-> l.v, d |-> d.v, c |-> (CHOOSE i \in hit : TRUE) - 1, m |-> [i \in 1..Len(ms) |-> ms[i].v]])
\* No two methods may share their title and stage
Unambiguous(groups) == NumMethods(groups) = Cardinality(LibOfGroups(groups))
Collection(text) ==
  LET r  == TLCEval(XmlParse(text))
      gs == TLCEval([i \in 1..Len(Kids(r, "methodSet")) |-> XmlGroup(Kids(r, "methodSet")[i])])
      groups == [i \in 1..Len(gs) |-> gs[i].v]
  IN  IF r.k = "bad" THEN DecEither
      ELSE IF Attr(r, "xmlns") # Some(NameSpace) \/ Attr(r, "date") = None \/ \E i \in 1..Len(r.kids) : ~NoNameSpaces(r.kids[i]) THEN DecEither
      ELSE IF All(gs) # "ok" THEN DecEither
      ELSE IF ~Unambiguous(groups) THEN DecEither
      ELSE Dec("ok", groups)

-----------------------------------------------------------------------------
\* Writing documents
XChar(c) == CASE c = 38 -> T("&amp;") [] c = 60 -> T("&lt;") [] c = 62 -> T("&gt;") [] c = 34 -> T("&quot;") [] OTHER -> <<c>>
XEscape(v) == Concat([i \in 1..Len(v) |-> XChar(v[i])])
RECURSIVE XmlWrite(_)
XmlWrite(e) ==
  IF e.k = "tx" THEN XEscape(e.v)
  ELSE <<60>> \o e.tag \o Concat([i \in 1..Len(e.attrs) |-> <<32>> \o e.attrs[i][1] \o T("=\"") \o XEscape(e.attrs[i][2]) \o <<34>>])
       \o (IF e.kids = <<>> THEN T("/>")
           ELSE <<62>> \o Concat([i \in 1..Len(e.kids) |-> XmlWrite(e.kids[i])]) \o T("</") \o e.tag \o <<62>>)
XEl(tag, attrs, kids) == [k |-> "el", tag |-> T(tag), attrs |-> attrs, kids |-> kids]
XTx(v) == [k |-> "tx", v |-> v]
XAttr(name, v) == <<T(name), v>>
\* The document of some groups
XmlMethodDoc(m) == XEl("method", <<>>, <<XEl("title", <<>>, <<XTx(m.t.v)>>), XEl("name", <<>>, <<XTx(m.n)>>), XEl("notation", <<>>, <<XTx(m.p)>>)>>)
XmlFlagAttr(name, b) == IF b THEN <<XAttr(name, T("true"))>> ELSE <<>>
XmlGroupDoc(g) ==
  XEl("methodSet", <<>>,
      <<XEl("properties", <<>>, <<XEl("stage", <<>>, <<XTx(Digits(g.s))>>),
                                  XEl("classification", XmlFlagAttr("little", g.l) \o XmlFlagAttr("differential", g.d), <<XTx(XmlClasses[g.c + 1])>>)>>)>>
      \o [i \in 1..Len(g.m) |-> XmlMethodDoc(g.m[i])])
XmlDoc(groups) == XEl("collection", <<XAttr("xmlns", NameSpace), XAttr("date", T("2021-02-03"))>>, [i \in 1..Len(groups) |-> XmlGroupDoc(groups[i])])
=============================================================================
