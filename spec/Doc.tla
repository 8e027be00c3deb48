-------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* Reading a document: the header and the block structure as a state       *)
(* machine over the lines of the text.                                     *)
(*                                                                         *)
(* One action consumes one construct: a header line, a paragraph, a raw    *)
(* delimited block, a media macro, a break, an attribute entry, a heading, *)
(* an opening delimiter line ...  Enclosing sections and compound blocks   *)
(* are frames of a stack; document attributes, the registry of IDs, the    *)
(* section counters and the warnings are part of the state.                *)
(*                                                                         *)
(* A case is [id, docs, attrs, rend, rt, ...] where docs is a sequence of  *)
(* [src |-> text, ...]: they are read one after the other by one parser.   *)
(***************************************************************************)
EXTENDS Author

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)

(***************************************************************************)
(* Lines                                                                   *)
(* A line is [a |-> start, e |-> end without line end, n |-> end without   *)
(* trailing spaces too, x |-> start of the next line] (1-based positions,  *)
(* ends exclusive).                                                        *)
(***************************************************************************)
RECURSIVE LineTable(_, _)
LineTable(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET p == IndexC(s, NL, i)
           q == IF p = 0 THEN Len(s) + 1 ELSE p
           e == IF q > i /\ s[q - 1] = CR THEN q - 1 ELSE q
           last == IF e = i THEN 0 ELSE SelectLastInSubSeq(s, i, e - 1, LAMBDA c: c # SP)
           n == IF last = 0 THEN i ELSE last + 1
       IN <<[a |-> i, e |-> e, n |-> n, x |-> IF p = 0 THEN q ELSE q + 1]>>
          \o LineTable(s, IF p = 0 THEN q ELSE q + 1)

\* the text being read: [s |-> characters, l |-> line table]
TextOf(s) == [s |-> s, l |-> LineTable(s, 1)]
NLines(t) == Len(t.l)
PosOf(t, k) == IF k > NLines(t) THEN Len(t.s) + 1 ELSE t.l[k].a
LineE(t, k) == Sub(t.s, t.l[k].a, t.l[k].e)        \* without its line end
LineN(t, k) == Sub(t.s, t.l[k].a, t.l[k].n)        \* normalized
NSpan(t, k) == <<t.l[k].a, t.l[k].n>>
IsBlankLine(t, k) == AllIn(LineE(t, k), Blank)
\* no content for a paragraph: only spaces and tabs
RECURSIVE SkipBlank(_, _, _)
SkipBlank(t, k, lim) == IF k < lim /\ IsBlankLine(t, k) THEN SkipBlank(t, k + 1, lim) ELSE k
\* end of [from, to) without trailing white space
TrimTo(t, from, to) ==
  IF to <= from THEN from
  ELSE LET p == SelectLastInSubSeq(t.s, from, to - 1, LAMBDA c: c \notin SpaceCh)
       IN IF p = 0 THEN from ELSE p + 1
\* end of [from, to) without one line end
TrimEol(t, from, to) ==
  IF to > from /\ t.s[to - 1] = NL
  THEN IF to - 1 > from /\ t.s[to - 2] = CR THEN to - 2 ELSE to - 1
  ELSE to
Sp(from, to) == <<from - 1, to - 1>>                \* a reported span (0-based)
SpanText(t, sp) == Sub(t.s, sp[1] + 1, sp[2] + 1)

Warn(name, args, sp) == [t |-> name, args |-> args, span |-> sp]
W0(name, sp) == Warn(name, <<>>, sp)

(***************************************************************************)
(* Attribute entries                                                       *)
(***************************************************************************)
UserFirst == AsciiAlnum \cup {"_"}
UserRest  == UserFirst \cup {"-"}
\* last line (inclusive) of an entry starting at line k
RECURSIVE ContLine(_, _, _)
ContLine(t, k, lim) ==
  IF k >= lim THEN lim - 1 ELSE IF EndsC(LineN(t, k), BSL) THEN ContLine(t, k + 1, lim) ELSE k

JoinCont(raw) ==
  LET ls == LinesOf(raw)
      n == Len(ls)
      one(k) == LET a == IF k > 1 THEN TrimStart(ls[k], {SP}) ELSE ls[k]
                    b == TrimEnd(TrimEnd(TrimEnd(TrimStart(a, {CR}), {SP}), {BSL}), {SP})
                IN IF EndsC(b, "+") THEN TrimEnd(TrimEnd(b, {"+"}), {SP}) \o <<NL>>
                   ELSE IF k < n THEN b \o <<SP>> ELSE b
  IN Concat([k \in 1..n |-> one(k)] \o <<>>)

\* <<entry>> or <<>>; an entry is [name, raw, val, span, next, nm, rawt]
ParseEntry(t, k, lim, env) ==
  LET last == ContLine(t, k, lim)
      next == last + 1
      from == t.l[k].a
      to0 == PosOf(t, next)
      to1 == IF to0 > from /\ t.s[to0 - 1] = NL THEN to0 - 1 ELSE to0
      to2 == IF to1 > from /\ t.s[to1 - 1] = CR THEN to1 - 1 ELSE to1
      to == LET p == IF to2 = from THEN 0 ELSE SelectLastInSubSeq(t.s, from, to2 - 1, LAMBDA c: c # SP)
            IN IF p = 0 THEN from ELSE p + 1
      at(p) == IF p < to THEN t.s[p] ELSE ""
      bang1 == at(from + 1) = "!"
      n0 == IF bang1 THEN from + 2 ELSE from + 1
      n1 == IF at(n0) \in UserFirst THEN Min2(SkipIn(t.s, UserRest, n0 + 1), to) ELSE 0
      bang2 == n1 > 0 /\ at(n1) = "!" /\ ~bang1
      c == IF bang2 THEN n1 + 1 ELSE n1
      ok == to > from /\ at(from) = ":" /\ n1 > 0 /\ at(c) = ":"
      r0 == c + 1
      raw == Min2(SkipIn(t.s, Blank, r0), to)
      unset == bang1 \/ bang2
      rawt == Sub(t.s, raw, to)
      joined == IF HasC(rawt, NL) THEN JoinCont(rawt) ELSE rawt
  IN IF ~ok THEN <<>>
     ELSE <<[nm |-> Sub(t.s, n0, n1), name |-> Sp(n0, n1), next |-> next,
             span |-> Sp(from, TrimTo(t, from, to0)),
             raw |-> IF unset \/ r0 >= to THEN <<>> ELSE <<Sp(raw, to)>>,
             rawt |-> rawt,
             val |-> IF unset THEN UnsetV ELSE IF r0 >= to THEN SetV
                     ELSE ValueV(ApplyGroup(joined, Grp("header"), env, <<>>))]>>
EntryJson(e) == [name |-> e.name, raw |-> e.raw, val |-> e.val, span |-> e.span]
\* body entries must look like one on their first line
ColonSpace == <<":", SP>>
LooksLikeEntry(l) == StartsC(l, ":") /\ (EndsC(l, ":") \/ HasW(l, ColonSpace))

(***************************************************************************)
(* Block metadata                                                          *)
(***************************************************************************)
XmlFirst == Alphabetic \cup {":", "_"}
XmlRest  == Alnum \cup {":", "_", ".", "-"} \cup SetOf("middot")
IsXmlName(w) == w # <<>> /\ w[1] \in XmlFirst /\ AllIn(w, XmlRest)

IsTitleLine(l) == StartsC(l, ".") /\ ~(Len(l) >= 2 /\ l[2] = ".") /\ ~(Len(l) >= 2 /\ l[2] \in Blank)
DblOpen == <<"[", "[">>
DblClose == <<"]", "]">>
IsAnchorLine(l) == StartsW(l, DblOpen) /\ EndsW(l, DblClose)
IsAttrlistLine(l) ==
  /\ Len(l) >= 2 /\ l[1] = "[" /\ l[Len(l)] = "]"
  /\ ~(Len(l) > 2 /\ l[2] \in Blank)
  /\ ~(Len(l) > 2 /\ l[2] = "[" /\ l[Len(l) - 1] = "]")

Meta0(k) == [from |-> k, k |-> k, tsrc |-> <<>>, title |-> <<>>, anchor |-> <<>>, areft |-> <<>>,
             al |-> <<>>, alspan |-> <<>>, warns |-> <<>>]
RECURSIVE MetaLoop(_, _, _, _)
MetaLoop(t, m, lim, env) ==
  IF m.k >= lim THEN m
  ELSE
  LET l == LineN(t, m.k)
      a == t.l[m.k].a
      n == t.l[m.k].n
      isT == m.tsrc = <<>> /\ IsTitleLine(l)
      isA == m.anchor = <<>> /\ IsAnchorLine(l)
      inner == IF isA THEN SubSeq(l, 3, Len(l) - 2) ELSE <<>>
      c == IndexC(inner, ",", 1)
      split == c > 0 /\ c < Len(inner)
      id == IF split THEN Upto(inner, c - 1) ELSE inner
      idsp == Sp(a + 2, a + 2 + Len(id))
      good == isA /\ inner # <<>> /\ IsXmlName(id)
      m1 == IF isA /\ ~good
            THEN [m EXCEPT !.warns = Append(@, W0(IF inner = <<>> THEN "EmptyBlockAnchorName"
                                                  ELSE "InvalidBlockAnchorName", idsp))]
            ELSE m
      isL == m.al = <<>> /\ IsAttrlistLine(l)
      al == ParseAttrlist(SubSeq(l, 2, Len(l) - 1), env, "block")
      alsp == Sp(a + 1, n - 1)
  IN IF isT THEN MetaLoop(t, [m EXCEPT !.tsrc = <<Sp(a + 1, n)>>, !.k = @ + 1], lim, env)
     ELSE IF good
          THEN MetaLoop(t, [m EXCEPT !.anchor = <<idsp>>, !.k = @ + 1,
                                     !.areft = IF split THEN <<Sp(a + 2 + c, n - 2)>> ELSE <<>>],
                        lim, env)
     ELSE IF isL
          THEN MetaLoop(t, [m1 EXCEPT !.al = <<al>>, !.alspan = <<alsp>>, !.k = @ + 1,
                            !.warns = @ \o ([j \in 1..Len(al.warns) |-> W0(al.warns[j], alsp)] \o <<>>)],
                        lim, env)
     ELSE m1
ParseMeta(t, k, lim, env) == MetaLoop(t, Meta0(k), lim, env)
\* the rendered title (a block title sees the attributes as they are here)
WithTitle(t, m, env) ==
  IF m.tsrc = <<>> THEN m
  ELSE [m EXCEPT !.title = <<ApplyGroup(SpanText(t, m.tsrc[1]), Grp("normal"), env, <<>>)>>]
NoMeta(m) == m.tsrc = <<>> /\ m.anchor = <<>> /\ m.al = <<>>
MStyle(m) == IF m.al = <<>> THEN <<>> ELSE AlStyle(m.al[1])
S_discrete == <<C("discrete")>>
S_float == <<C("float")>>
S_literal == <<C("literal")>>
S_normal == <<C("normal")>>
S_listing == <<C("listing")>>
S_source == <<C("source")>>
S_appendix == <<C("appendix")>>
Discrete(m) == MStyle(m) \in {S_discrete, S_float}
MId(t, m) ==
  IF m.anchor # <<>> THEN <<SpanText(t, m.anchor[1])>>
  ELSE IF m.al # <<>> THEN AlId(m.al[1]) ELSE <<>>

(***************************************************************************)
(* Recognising blocks                                                      *)
(***************************************************************************)
AllC(l, c) == Len(l) >= 4 /\ AllIn(l, {c})
RawKind(l) ==
  CASE AllC(l, "/") -> "comment" [] AllC(l, "-") -> "listing" [] AllC(l, ".") -> "literal"
    [] AllC(l, "+") -> "pass" [] OTHER -> ""
OpenDelim == <<"-", "-">>
CompoundKind(l) ==
  CASE AllC(l, "=") -> "example" [] l = OpenDelim -> "open" [] AllC(l, "*") -> "sidebar"
    [] AllC(l, "_") -> "quote" [] OTHER -> ""
IsDelimiter(l) == RawKind(l) # "" \/ CompoundKind(l) # ""
\* first line >= k that equals d, or lim
RECURSIVE CloseLine(_, _, _, _)
CloseLine(t, k, lim, d) ==
  IF k >= lim THEN lim ELSE IF LineN(t, k) = d THEN k ELSE CloseLine(t, k + 1, lim, d)

Thematic == {C("'''"), C("---"), C("- - -"), C("***"), C("* * *")}
PageBreak == C("<<<")
BreakKind(l) == IF l \in Thematic THEN "thematic" ELSE IF l = PageBreak THEN "page" ELSE ""

MediaTypes == {"image", "video", "audio"}
MediaPrefix == [image |-> C("image::"), video |-> C("video::"), audio |-> C("audio::")]
\* <<[type, from, to (target), al]>> in positions of the line, or <<>>
MediaOf(l) ==
  LET ty == {x \in MediaTypes: StartsW(l, MediaPrefix[x])}
      b == IndexC(l, "[", 8)
  IN IF ty = {} \/ ~EndsC(l, "]") \/ b <= 8 THEN <<>>
     ELSE <<[type |-> CHOOSE x \in ty: TRUE, to |-> b, al |-> SubSeq(l, b + 1, Len(l) - 1)]>>

\* Headings: [ok, level, from (title, position in the line), warns]
NotHeading == [ok |-> FALSE, level |-> 0, from |-> 0, warns |-> <<>>]
HeadingOf(l, sp) ==
  LET c == IF l = <<>> THEN "" ELSE l[1]
      cnt == IF c \in {"=", "#"} THEN SkipIn(l, {c}, 1) - 1 ELSE 0
      ws == SkipIn(l, Blank, cnt + 1)
  IN IF cnt = 0 THEN NotHeading
     ELSE IF cnt = 1 THEN [NotHeading EXCEPT !.warns = <<W0("Level0SectionHeadingNotSupported", sp)>>]
     ELSE IF cnt > 6
          THEN [NotHeading EXCEPT !.warns = <<Warn("SectionHeadingLevelExceedsMaximum", <<NumText(cnt - 1)>>, sp)>>]
     ELSE IF ws = cnt + 1 THEN NotHeading
     ELSE [ok |-> TRUE, level |-> cnt - 1, from |-> ws, warns |-> <<>>]
\* the heading on line k; a blank line is none
HeadingAt(t, k, lim) ==
  IF k >= lim \/ IsBlankLine(t, k) THEN NotHeading ELSE HeadingOf(LineN(t, k), Sp(t.l[k].a, t.l[k].n))

\* Does the block at line k end a section of level lv?  [stop, mrl, warns]
PeerCheck(t, k, lim, lv, mrl, env) ==
  LET m == ParseMeta(t, k, lim, env)
      h == HeadingAt(t, m.k, lim)
  IN IF Discrete(m) \/ MStyle(m) = S_literal \/ ~h.ok THEN [stop |-> FALSE, mrl |-> mrl, warns |-> <<>>]
     ELSE [stop |-> h.level <= lv, mrl |-> h.level,
           warns |-> IF h.level > mrl + 1
                     THEN <<Warn("SectionHeadingLevelSkipped", <<NumText(mrl), NumText(h.level)>>,
                                 Sp(t.l[k].a, t.l[k].n))>>
                     ELSE <<>>]

\* Paragraph lines from line k: [next, lines]
Plus1 == <<"+">>
IsCommentLine(l) == StartsW(l, <<"/", "/">>) /\ ~StartsW(l, <<"/", "/", "/">>)
EndsParagraph(l) ==
  l = Plus1 \/ (StartsC(l, "[") /\ EndsC(l, "]")) \/ IsDelimiter(l)
RECURSIVE ParaLines(_, _, _, _, _)
ParaLines(t, k, lim, strip, lines) ==
  IF k >= lim \/ IsBlankLine(t, k) THEN [next |-> k, lines |-> lines]
  ELSE LET l == LineN(t, k)
       IN IF lines # <<>> /\ EndsParagraph(l) THEN [next |-> k, lines |-> lines]
          ELSE IF IsCommentLine(l) THEN ParaLines(t, k + 1, lim, strip, lines)
          ELSE LET b == SkipIn(l, Blank, 1) - 1
                   cut == From(l, Min2(b, strip) + 1)
               IN ParaLines(t, k + 1, lim, strip, Append(lines, TrimEnd(cut, SpaceCh)))

\* A paragraph starting at line k (in metadata m): <<[next, style, orig, text]>> or <<>>
Paragraph(t, k, lim, al, env, rt) ==
  IF k >= lim THEN <<>>
  ELSE
  LET indent == SkipIn(LineE(t, k), Blank, 1) - 1
      p == ParaLines(t, k, lim, indent, <<>>)
      from == t.l[k].a
      to == TrimTo(t, from, PosOf(t, p.next))
      st == IF al = <<>> THEN <<>> ELSE AlStyle(al[1])
      style == CASE st = S_normal -> "paragraph" [] st = S_literal -> "literal"
                 [] st = S_listing -> "listing" [] st = S_source -> "source"
                 [] OTHER -> IF indent > 0 THEN "literal" ELSE "paragraph"
      raw == Join(p.lines, <<NL>>)
  IN IF p.next = k \/ to = from THEN <<>>
     ELSE <<[next |-> p.next, style |-> style, orig |-> Sp(from, to),
             text |-> IF rt THEN <<ApplyGroup(raw, OverrideGroup(Grp("normal"), al), env, al)>> ELSE <<raw>>]>>

(***************************************************************************)
(* Section IDs and numbers                                                 *)
(***************************************************************************)
Hex == HexDigits \ ToSet(C("ABCDEF"))
RxIdJunk == Compile(Alt(<<
   Cat(<<Ch("<"), Plus(NotIn({">"})), Ch(">")>>),
   Cat(<<Lit("&lt;"), Star(NotIn({"&"})), Lit("&gt;")>>),
   Cat(<<Ch("&"), Alt(<<Cat(<<In(LowerAZ), Plus(In(LowerAZ)), Opt(In(Nd)), Opt(In(Nd))>>),
                        Cat(<<Ch("#"), In(Nd), In(Nd), UptoN(In(Nd), 3)>>),
                        Cat(<<Lit("#x"), In(Hex \cup Nd), In(Hex \cup Nd), UptoN(In(Hex \cup Nd), 2)>>)>>), Ch(";")>>),
   Plus(NotIn(WordCh \cup {SP, "-", "."}))>>), 0)
RECURSIVE Squeeze(_, _)
Squeeze(t, w) == IF HasW(t, w) THEN Squeeze(Repl(t, w, <<w[1]>>), w) ELSE t
IdClean == WordCh \cup {SP, "-", "."}
N_idprefix == C("idprefix")
N_idseparator == C("idseparator")
OrEmpty(o) == IF o = <<>> THEN <<>> ELSE o[1]
BaseId(title, A) ==
  LET prefix == OrEmpty(AttrStr(A, N_idprefix))
      sep0 == OrEmpty(AttrStr(A, N_idseparator))
      sep == IF sep0 = <<>> THEN <<>> ELSE <<sep0[1]>>
      low == Lower(title)
      t1 == IF AllIn(low, IdClean) THEN low ELSE ReplaceAllM(RxIdJunk, low, LAMBDA d, m: d)
      t2 == FoldLeft(LAMBDA d, c: IF c \in {SP, ".", "-"} THEN d \o sep ELSE Append(d, c), <<>>, t1)
      t3 == IF sep = <<>> THEN t2 ELSE Squeeze(t2, sep \o sep)
      t4 == IF sep # <<>> /\ EndsC(t3, sep[1]) THEN Upto(t3, Len(t3) - 1) ELSE t3
      t5 == IF sep # <<>> /\ prefix = <<>> /\ StartsC(t4, sep[1]) THEN From(t4, 2) ELSE t4
  IN prefix \o t5

EmptyCat == [ids |-> <<>>, texts |-> <<>>]
HasId(cat, id) == id \in DOMAIN cat.ids
Claim(cat, id, reft, type) ==
  [ids |-> (id :> [reftext |-> reft, type |-> type]) @@ cat.ids,
   texts |-> IF reft = <<>> \/ reft[1] \in DOMAIN cat.texts THEN cat.texts
             ELSE (reft[1] :> id) @@ cat.texts]
RECURSIVE FreeId(_, _, _)
FreeId(cat, base, n) ==
  LET id == IF n = 1 THEN base ELSE base \o <<"-">> \o NumText(n)
  IN IF HasId(cat, id) THEN FreeId(cat, base, n + 1) ELSE id

NextNumber(comp, lv) ==
  LET c == IF Len(comp) > lv THEN SubSeq(comp, 1, lv) ELSE comp
  IN IF Len(c) < lv THEN [k \in 1..lv |-> IF k <= Len(c) THEN c[k] ELSE 1] \o <<>>
     ELSE IF lv > 0 THEN [c EXCEPT ![lv] = @ + 1] ELSE c
LetterText == C("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
RECURSIVE Letters(_)      \* A to Z, AA, AB, ...
Letters(n) == IF n = 0 THEN <<>> ELSE Append(Letters((n - 1) \div 26), LetterText[((n - 1) % 26) + 1])
NumberText(comp, app) ==
  Join([k \in 1..Len(comp) |-> IF k = 1 /\ app THEN Letters(comp[1])
                               ELSE NumText(comp[k])] \o <<>>, <<".">>)

N_sectids == C("sectids")
N_sectnums == C("sectnums")
N_sectnumlevels == C("sectnumlevels")
N_reftext == C("reftext")
\* Rust's parse::<usize>() of an attribute value; 3 otherwise
RECURSIVE NumVal(_, _)
NumVal(t, acc) == IF t = <<>> THEN acc ELSE NumVal(Tail(t), acc * 10 + (CHOOSE d \in 0..9: DigitText[d + 1] = t[1]))
NumLevels(A) ==
  LET o == AttrStr(A, N_sectnumlevels)
      v == IF o = <<>> THEN <<>> ELSE IF StartsC(o[1], "+") THEN Tail(o[1]) ELSE o[1]
  IN IF v = <<>> \/ ~AllIn(v, Digits) THEN 3 ELSE IF Len(v) > 8 THEN 99999999 ELSE NumVal(v, 0)

(***************************************************************************)
(* Reported blocks                                                         *)
(***************************************************************************)
BuiltInContexts == {C(x) : x \in {"admonition", "audio", "colist", "dlist", "document", "example",
  "floating_title", "image", "list_item", "listing", "literal", "olist", "open", "page_break", "paragraph",
  "pass", "preamble", "quote", "section", "sidebar", "table", "table_cell", "thematic_break", "toc", "ulist",
  "verse", "video"}}

\* the names and options that every attribute list is asked for
AskNames == <<C("a"), C("id"), C("b"), C("role"), C("opts"), C("options"), C("foo"), C("alt")>>
AskOpts == <<C("o"), C("p"), C("a"), C("u"), <<>>>>
Marked(sh, d) == LET q == SelectSeq(sh, LAMBDA x: x[1] = d) IN [k \in 1..Len(q) |-> From(q[k], 2)] \o <<>>
\* what one attribute says on its own
Alone(a) ==
  [n |-> a.n, v |-> a.v, sh |-> a.sh,
   style |-> IF a.sh = <<>> \/ HasIn(a.sh[1], ShDelim) THEN <<>> ELSE <<a.sh[1]>>,
   id |-> LET q == Marked(a.sh, "#") IN IF q = <<>> THEN <<>> ELSE <<q[1]>>,
   roles |-> Marked(a.sh, "."), opts |-> Marked(a.sh, "%")]
AlJson(al, sp) ==
  [span |-> sp, anchor |-> al.anchor,
   attrs |-> [k \in 1..Len(al.attrs) |-> Alone(al.attrs[k])] \o <<>>,
   named |-> [k \in 1..Len(AskNames) |-> ValOf(Named(al, AskNames[k]))] \o <<>>,
   nop |-> [k \in 1..Len(AskNames) |->
             LET n == (k - 1) % 4
                 x == Named(al, AskNames[k])
             IN ValOf(IF x # <<>> \/ n = 0 THEN x ELSE Nth(al, n))] \o <<>>,
   hasopt |-> [k \in 1..Len(AskOpts) |-> AlHasOpt(al, AskOpts[k])] \o <<>>,
   pos |-> LET p == Positionals(al) IN [k \in 1..Len(p) |-> p[k].v] \o <<>>,
   id |-> AlId(al), roles |-> AlRoles(al), opts |-> AlOpts(al), style |-> AlStyle(al)]

\* A block of metadata m; u holds what is particular to its kind.
Block(t, m, kind, ctx, model, span, u) ==
  u @@ [kind |-> kind, ctx |-> C(ctx),
        rctx |-> IF MStyle(m) # <<>> /\ MStyle(m)[1] \in BuiltInContexts THEN MStyle(m)[1] ELSE C(ctx),
        model |-> model, span |-> span, tsrc |-> m.tsrc, title |-> m.title, anchor |-> m.anchor,
        areft |-> m.areft,
        attrlist |-> IF m.al = <<>> THEN <<>> ELSE <<AlJson(m.al[1], m.alspan[1])>>,
        dstyle |-> MStyle(m), id |-> MId(t, m),
        roles |-> IF m.al = <<>> THEN <<>> ELSE AlRoles(m.al[1]),
        opts |-> IF m.al = <<>> THEN <<>> ELSE AlOpts(m.al[1]),
        hasopt |-> [k \in 1..Len(AskOpts) |-> m.al # <<>> /\ AlHasOpt(m.al[1], AskOpts[k])] \o <<>>,
        sg |-> Grp("normal"),
        empty |-> IF "text" \in DOMAIN u THEN <<u.text[1] = <<>>>> ELSE <<>>,
        orig |-> <<>>, text |-> <<>>, style |-> "", level |-> 0, stsrc |-> <<>>, stitle |-> <<>>,
        stype |-> "", num |-> <<>>, mtype |-> "", target |-> <<>>, mattr |-> <<>>, btype |-> "",
        attr |-> <<>>, kids |-> <<>>]

Header0 == [span |-> <<0, 0>>, tsrc |-> <<>>, title |-> <<>>, attrs |-> <<>>, author |-> <<>>,
            rev |-> <<>>, comments |-> <<>>]
Frame0 == [f |-> "doc", lim |-> 0, level |-> 0, mrl |-> 0, disc |-> FALSE, m |-> <<>>, from |-> 0,
           ctx |-> "", close |-> 0, kids |-> <<>>, u |-> <<>>, base |-> <<>>, reft |-> <<>>,
           gen |-> FALSE]

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
VARIABLES i,      \* the case, and
          d,      \* the document of the case being read
          phase,  \* "hdr", "body", "done", "end"
          tx,     \* its text
          ln,     \* the next line to read
          hd,     \* the header so far
          A,      \* document attributes
          cat,    \* the registry of IDs
          num,    \* section counters
          stack,  \* open sections and compound blocks; the last is the innermost
          warns,  \* warnings so far
          cov,    \* what each consumed run of lines became: <<from, to, role>>
          last    \* name of the last action (for properties and coverage)
vars == <<i, d, phase, tx, ln, hd, A, cat, num, stack, warns, cov, last>>

Case == Cases[i]
Env == [attrs |-> A, rend |-> Case.rend]
AttrsOf(c) == FoldLeft(LAMBDA a, x: Put(a, x.n, [k |-> x.k, v |-> x.v], x.ctx), BuiltInAttrs, c.attrs)
Num0 == [normal |-> <<>>, app |-> <<>>, top |-> "normal", lv |-> 3]

Load(ci, di, a) ==
  /\ i' = ci /\ d' = di
  /\ IF ci > NCases
     THEN phase' = "end" /\ tx' = TextOf(<<>>) /\ A' = <<>>
     ELSE phase' = "hdr" /\ tx' = TextOf(Cases[ci].docs[di].src) /\ A' = a
  /\ ln' = 1 /\ hd' = Header0 /\ cat' = EmptyCat /\ num' = Num0 /\ stack' = <<>> /\ warns' = <<>>
  /\ cov' = <<>> /\ last' = "load"
Init ==
  /\ i = 1 /\ d = 1
  /\ phase = (IF NCases = 0 THEN "end" ELSE "hdr")
  /\ tx = TextOf(IF NCases = 0 THEN <<>> ELSE Cases[1].docs[1].src)
  /\ A = (IF NCases = 0 THEN <<>> ELSE AttrsOf(Cases[1]))
  /\ ln = 1 /\ hd = Header0 /\ cat = EmptyCat /\ num = Num0 /\ stack = <<>> /\ warns = <<>>
  /\ cov = <<>> /\ last = "load"

End == NLines(tx) + 1
Cover(c, from, to, role) == IF to > from THEN Append(c, <<from, to, role>>) ELSE c

(* ---- header ---- *)
HL == LineN(tx, ln)
InHeader == phase = "hdr" /\ ln < End
HBlank == AllIn(HL, Blank)
HComment == ~HBlank /\ IsCommentLine(HL)
HEntry == IF HBlank \/ HComment \/ ~StartsC(HL, ":") THEN <<>> ELSE ParseEntry(tx, ln, End, Env)
TitleMark == <<"=", SP>>
HTitle == hd.title = <<>> /\ StartsW(HL, TitleMark)
HPlain == (~HBlank /\ ~HComment /\ ~StartsC(HL, ":")) \/ (StartsC(HL, ":") /\ HEntry = <<>>)
KeepBody == UNCHANGED <<i, d, phase, tx, cat, num, stack>>

HeaderSkipBlank ==
  /\ InHeader /\ HBlank /\ hd.title = <<>>
  /\ ln' = ln + 1 /\ cov' = Cover(cov, ln, ln + 1, "blank") /\ last' = "h-blank"
  /\ UNCHANGED <<hd, A, warns>> /\ KeepBody
HeaderComment ==
  /\ InHeader /\ HComment
  /\ hd' = [hd EXCEPT !.comments = Append(@, Sp(tx.l[ln].a, tx.l[ln].n))]
  /\ ln' = ln + 1 /\ cov' = Cover(cov, ln, ln + 1, "header") /\ last' = "h-comment"
  /\ UNCHANGED <<A, warns>> /\ KeepBody
AuthorEntry(e, a) ==
  IF Lower(e.nm) = N_author /\ e.raw # <<>>
  THEN LET p == ParseAuthor(e.rawt, Env) IN IF p = <<>> THEN a ELSE AuthorEntryAttrs(a, p[1])
  ELSE a
HeaderEntry ==
  /\ InHeader
  /\ \E es \in {HEntry}: es # <<>> /\
     \E a1 \in {AuthorEntry(es[1], A)}:
     LET e == es[1]
         n == Remap(e.nm)
     IN /\ hd' = [hd EXCEPT !.attrs = Append(@, EntryJson(e))]
        /\ IF HeaderMaySet(a1, n)
           THEN A' = HeaderSet(a1, n, e.val) /\ warns' = warns /\ last' = "h-entry"
           ELSE A' = a1 /\ warns' = Append(warns, Warn("AttributeValueIsLocked", <<n>>, e.span))
                /\ last' = "h-refused"
        /\ ln' = e.next /\ cov' = Cover(cov, ln, e.next, "header")
  /\ KeepBody
HeaderTitle ==
  /\ InHeader /\ HTitle /\ HPlain
  /\ LET from == tx.l[ln].a - 1 + SkipIn(HL, Blank, 3)
     IN \E x \in {ApplyGroup(Sub(tx.s, from, tx.l[ln].n), Grp("header"), Env, <<>>)}:
        /\ hd' = [hd EXCEPT !.title = <<x>>, !.tsrc = <<Sp(from, tx.l[ln].n)>>]
        /\ A' = SetByValue(A, N_doctitle, x)
  /\ ln' = ln + 1 /\ cov' = Cover(cov, ln, ln + 1, "header") /\ last' = "h-title"
  /\ UNCHANGED warns /\ KeepBody
HeaderAuthor ==
  /\ InHeader /\ hd.title # <<>> /\ hd.author = <<>> /\ ~HTitle /\ HPlain
  /\ \E r \in {ParseAuthorLine(HL, Env)}:
     LET js == [k \in 1..Len(r.authors) |-> r.authors[k] @@ [initials |-> Initials(r.authors[k])]] \o <<>>
     IN /\ hd' = [hd EXCEPT !.author = <<[span |-> Sp(tx.l[ln].a, tx.l[ln].n), authors |-> js]>>]
        /\ A' = r.attrs
  /\ ln' = ln + 1 /\ cov' = Cover(cov, ln, ln + 1, "header") /\ last' = "h-author"
  /\ UNCHANGED warns /\ KeepBody
HeaderRevision ==
  /\ InHeader /\ hd.title # <<>> /\ hd.author # <<>> /\ hd.rev = <<>> /\ ~HTitle /\ HPlain
  /\ \E r \in {ParseRevision(HL, Env)}:
        /\ hd' = [hd EXCEPT !.rev = <<[span |-> Sp(tx.l[ln].a, tx.l[ln].n), num |-> r.num,
                                       date |-> r.date, remark |-> r.remark]>>]
        /\ A' = r.attrs
  /\ ln' = ln + 1 /\ cov' = Cover(cov, ln, ln + 1, "header") /\ last' = "h-revision"
  /\ UNCHANGED warns /\ KeepBody
\* The header ends at a blank line after its title, at a line that cannot
\* belong to it, or with the text.
HeaderEnd ==
  /\ phase = "hdr"
  /\ \/ ln >= End
     \/ ln < End /\ HBlank /\ hd.title # <<>>
     \/ ln < End /\ (hd.title = <<>> \/ hd.rev # <<>>) /\ ~HTitle /\ HPlain
  /\ LET bad == ln < End /\ ~HBlank /\ hd.title # <<>>
         start == PosOf(tx, SkipBlank(tx, 1, End))
         stop == PosOf(tx, ln)
         first == SkipBlank(tx, ln, End)
     IN /\ warns' = IF bad THEN Append(warns, W0("DocumentHeaderNotTerminated",
                                                 Sp(tx.l[ln].a, tx.l[ln].n)))
                    ELSE warns
        /\ hd' = [hd EXCEPT !.span = Sp(start, IF stop > start THEN TrimTo(tx, start, stop) ELSE start)]
        /\ stack' = <<[Frame0 EXCEPT !.lim = End, !.from = PosOf(tx, first)]>>
        /\ ln' = first /\ cov' = Cover(cov, ln, first, "blank")
  /\ num' = [num EXCEPT !.lv = NumLevels(A)]
  /\ phase' = "body" /\ last' = "h-end"
  /\ UNCHANGED <<i, d, tx, A, cat>>

(* ---- body ---- *)
Top == stack[Len(stack)]
Push(s, fr) == Append(s, fr)
AddKid(s, b) == [s EXCEPT ![Len(s)].kids = Append(@, b)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

\* Claim a block's explicit ID once the block is complete.
Registered(c, b, w) ==
  IF b.id = <<>> THEN [cat |-> c, warns |-> w]
  ELSE IF HasId(c, b.id[1])
       THEN [cat |-> c, warns |-> Append(w, Warn("DuplicateId", <<b.id[1]>>, b.span))]
       ELSE [cat |-> Claim(c, b.id[1], b.title, "anchor"), warns |-> w]

\* What stands at line k in frame f.  Everything an action needs is computed here once.
Look(k) ==
  LET f == Top
      lim == f.lim
      pk == IF f.f = "section"
            THEN IF f.disc THEN [stop |-> TRUE, mrl |-> f.mrl, warns |-> <<>>]
                 ELSE PeerCheck(tx, k, lim, f.level, f.mrl, Env)
            ELSE [stop |-> FALSE, mrl |-> f.mrl, warns |-> <<>>]
      e == IF LooksLikeEntry(LineE(tx, k)) THEN ParseEntry(tx, k, lim, Env) ELSE <<>>
      m == WithTitle(tx, ParseMeta(tx, k, lim, Env), Env)
      nothing == m.k >= lim
      l == IF nothing THEN <<>> ELSE LineN(tx, m.k)
      lit == MStyle(m) = S_literal
      h == HeadingAt(tx, m.k, lim)
      what == IF e # <<>> THEN "entry"
              ELSE IF nothing \/ lit THEN "simple"
              ELSE IF RawKind(l) # "" THEN "raw"
              ELSE IF CompoundKind(l) # "" THEN "compound"
              ELSE IF MediaOf(l) # <<>> THEN "media"
              ELSE IF h.ok THEN "section"
              ELSE IF BreakKind(l) # "" THEN "break"
              ELSE "simple"
  IN IF k >= lim THEN [what |-> "close", pk |-> [stop |-> TRUE, mrl |-> f.mrl, warns |-> <<>>]]
     ELSE IF pk.stop THEN [what |-> "close", pk |-> pk]
     ELSE [what |-> what, pk |-> pk, e |-> e, m |-> m, l |-> l, h |-> h, lim |-> lim,
           w |-> pk.warns \o m.warns \o (IF what \in {"simple", "section", "break"} /\ ~lit THEN h.warns ELSE <<>>)]

AfterPeer(s, lk) == [s EXCEPT ![Len(s)].mrl = lk.pk.mrl]
\* The common effect of reading the block b, up to line next.
Emit(lk, b, w, from, next, role) ==
  LET n1 == SkipBlank(tx, next, lk.lim)
  IN \E b1 \in {b}:
     \E r \in {Registered(cat, b1, warns \o w)}:
     /\ stack' = AddKid(AfterPeer(stack, lk), b1)
     /\ cat' = r.cat /\ warns' = r.warns
     /\ ln' = n1
     /\ cov' = Cover(Cover(Cover(cov, from, lk.m.k, "meta"), Max2(from, lk.m.k), next, role), next, n1, "blank")

DoEntry(lk) ==
  LET e == lk.e[1]
      n == Remap(e.nm)
      ok == BodyMaySet(A, n)
      b == Block(tx, Meta0(ln), "attr", "attribute", "empty", e.span, [attr |-> <<EntryJson(e)>>])
      n1 == SkipBlank(tx, e.next, lk.lim)
  IN /\ A' = IF ok THEN BodySet(A, n, e.val) ELSE A
     /\ warns' = warns \o lk.pk.warns
                 \o (IF ok THEN <<>> ELSE <<Warn("AttributeValueIsLocked", <<n>>, e.span)>>)
     /\ stack' = AddKid(AfterPeer(stack, lk), b)
     /\ ln' = n1
     /\ cov' = Cover(Cover(cov, ln, e.next, "entry"), e.next, n1, "blank")
     /\ last' = IF ok THEN "entry" ELSE "refused"
     /\ UNCHANGED <<i, d, phase, tx, hd, cat, num>>

RawModel == [comment |-> "raw", listing |-> "verbatim", literal |-> "verbatim", pass |-> "raw"]
RawGroup == [comment |-> "none", listing |-> "verbatim", literal |-> "verbatim", pass |-> "pass"]
DoRaw(lk) ==
  \E close \in {CloseLine(tx, lk.m.k + 1, lk.lim, lk.l)}:
  LET m == lk.m
      kind == RawKind(lk.l)
      open == close = lk.lim
      next == IF open THEN lk.lim ELSE close + 1
      cfrom == PosOf(tx, m.k + 1)
      cto == IF open THEN TrimTo(tx, cfrom, PosOf(tx, close)) ELSE TrimEol(tx, cfrom, PosOf(tx, close))
      from == tx.l[m.from].a
      raw == Sub(tx.s, cfrom, cto)
      grp == OverrideGroup(Grp(RawGroup[kind]), m.al)
      b == Block(tx, m, "raw", kind, RawModel[kind], Sp(from, TrimTo(tx, from, PosOf(tx, next))),
                 [orig |-> <<Sp(cfrom, cto)>>, sg |-> grp,
                  text |-> <<IF Case.rt THEN ApplyGroup(raw, grp, Env, m.al) ELSE raw>>])
      w == IF open THEN <<W0("UnterminatedDelimitedBlock", Sp(tx.l[m.k].a, tx.l[m.k].n))>> ELSE <<>>
  IN /\ Emit(lk, b, lk.w \o w, ln, next, "leaf") /\ last' = "raw"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, num>>

DoMedia(lk) ==
  LET m == lk.m
      x == MediaOf(lk.l)[1]
      a == tx.l[m.k].a
      from == tx.l[m.from].a
      alsp == Sp(a + x.to, tx.l[m.k].n - 1)
      al == ParseAttrlist(x.al, Env, "inline")
      b == Block(tx, m, "media", x.type, "empty", Sp(from, TrimTo(tx, from, PosOf(tx, m.k + 1))),
                 [mtype |-> x.type, target |-> <<Sp(a + 7, a + x.to - 1)>>, mattr |-> <<AlJson(al, alsp)>>])
      w == [j \in 1..Len(al.warns) |-> W0(al.warns[j], alsp)] \o <<>>
  IN /\ Emit(lk, b, lk.w \o w, ln, m.k + 1, "leaf") /\ last' = "media"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, num>>

DoBreak(lk) ==
  LET m == lk.m
      ty == BreakKind(lk.l)
      from == tx.l[m.from].a
      b == Block(tx, m, "break", IF ty = "page" THEN "page_break" ELSE "thematic_break", "empty",
                 Sp(from, TrimTo(tx, from, PosOf(tx, m.k + 1))), [btype |-> ty])
  IN /\ Emit(lk, b, lk.w, ln, m.k + 1, "leaf") /\ last' = "break"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, num>>

\* A paragraph, or metadata with no block (which is then read as a
\* paragraph), or nothing at all (the line is skipped).
DoSimple(lk) ==
  \E p0 \in {Paragraph(tx, lk.m.k, lk.lim, lk.m.al, Env, Case.rt)}:
  \E orphan \in {p0 = <<>> /\ ~NoMeta(lk.m)}:
  \E m \in {IF orphan THEN Meta0(lk.m.from) ELSE lk.m}:
  \E p \in {IF orphan THEN Paragraph(tx, m.k, lk.lim, <<>>, Env, Case.rt) ELSE p0}:
  LET from == tx.l[m.from].a
      w == lk.w \o (IF orphan THEN <<W0("MissingBlockAfterTitleOrAttributeList",
                                        Sp(from, PosOf(tx, lk.lim)))>> ELSE <<>>)
      b == Block(tx, m, "simple", "paragraph", "simple", Sp(from, TrimTo(tx, from, PosOf(tx, p[1].next))),
                 [orig |-> <<p[1].orig>>, text |-> p[1].text, style |-> p[1].style])
      n1 == SkipBlank(tx, ln + 1, lk.lim)
  IN /\ IF p # <<>>
        THEN Emit([lk EXCEPT !.m = m], b, w, ln, p[1].next, "leaf")
             /\ last' = (IF orphan THEN "orphan" ELSE "paragraph")
        ELSE /\ stack' = AfterPeer(stack, lk)
             /\ warns' = warns \o w
             /\ ln' = n1 /\ cov' = Cover(Cover(cov, ln, ln + 1, "skipped"), ln + 1, n1, "blank")
             /\ cat' = cat /\ last' = "skip"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, num>>

OpenCompound(lk) ==
  \E close \in {CloseLine(tx, lk.m.k + 1, lk.lim, lk.l)}:
  LET m == lk.m
      open == close = lk.lim
      n1 == SkipBlank(tx, m.k + 1, close)
      fr == [Frame0 EXCEPT !.f = "compound", !.lim = close, !.m = m, !.from = tx.l[m.from].a,
                           !.ctx = CompoundKind(lk.l), !.close = IF open THEN 0 ELSE close]
      w == IF open THEN <<W0("UnterminatedDelimitedBlock", Sp(tx.l[m.k].a, tx.l[m.k].n))>> ELSE <<>>
  IN /\ stack' = Push(AfterPeer(stack, lk), fr)
     /\ warns' = warns \o lk.w \o w
     /\ ln' = n1
     /\ cov' = Cover(Cover(Cover(cov, ln, m.k, "meta"), m.k, m.k + 1, "open"), m.k + 1, n1, "blank")
     /\ last' = "open-compound"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, cat, num>>

CloseCompound ==
  \E f \in {Top}:
  LET to == IF f.close = 0 THEN PosOf(tx, f.lim) ELSE tx.l[f.close].n
      b == Block(tx, f.m, "compound", f.ctx, "compound", Sp(f.from, TrimTo(tx, f.from, to)), [kids |-> f.kids])
      s == Pop(stack)
      lim == s[Len(s)].lim
      next == IF f.close = 0 THEN f.lim ELSE f.close + 1
      n1 == SkipBlank(tx, next, lim)
  IN \E bb \in {b}: \E r \in {Registered(cat, bb, warns)}:
     /\ stack' = AddKid(s, bb) /\ cat' = r.cat /\ warns' = r.warns /\ ln' = n1
     /\ cov' = Cover(Cover(cov, ln, next, "close"), next, n1, "blank")
     /\ last' = "close-compound"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, num>>

OpenSection(lk) ==
  \E title \in {ApplyGroup(Sub(tx.s, tx.l[lk.m.k].a - 1 + lk.h.from, tx.l[lk.m.k].n), Grp("title"), Env, lk.m.al)}:
  LET m == lk.m
      h == lk.h
      lv == h.level
      disc == Discrete(m)
      type == IF disc THEN "discrete"
              ELSE IF lv = 1 THEN (IF MStyle(m) = S_appendix THEN "appendix" ELSE "normal")
              ELSE num.top
      top == IF ~disc /\ lv = 1 THEN type ELSE num.top
      numbered == IsSet(A, N_sectnums) /\ lv <= num.lv /\ ~disc
      app == top = "appendix"
      comp == NextNumber(IF app THEN num.app ELSE num.normal, lv)
      tfrom == tx.l[m.k].a - 1 + h.from
      tto == tx.l[m.k].n
      manual == MId(tx, m)
      nr == IF m.al = <<>> THEN <<>> ELSE ValOf(Named(m.al[1], N_reftext))
      reft == IF nr = <<>> THEN title ELSE nr[1]
      dup == manual # <<>> /\ HasId(cat, manual[1])
      n1 == SkipBlank(tx, m.k + 1, lk.lim)
      from == tx.l[m.from].a
      fr == [Frame0 EXCEPT !.f = "section", !.lim = lk.lim, !.level = lv, !.mrl = lv, !.disc = disc,
               !.m = m, !.from = from, !.base = BaseId(title, A), !.reft = reft,
               !.gen = IsSet(A, N_sectids) /\ manual = <<>>,
               !.u = [level |-> lv, stype |-> type, stitle |-> <<title>>, stsrc |-> <<Sp(tfrom, tto)>>,
                      num |-> IF numbered THEN <<[comp |-> comp, txt |-> NumberText(comp, app)]>> ELSE <<>>]]
  IN /\ \E fr1 \in {fr}: stack' = Push(AfterPeer(stack, lk), fr1)
     /\ num' = IF ~numbered THEN [num EXCEPT !.top = top]
               ELSE IF app THEN [num EXCEPT !.top = top, !.app = comp]
               ELSE [num EXCEPT !.top = top, !.normal = comp]
     /\ cat' = IF manual # <<>> /\ ~dup THEN Claim(cat, manual[1], <<reft>>, "section") ELSE cat
     /\ warns' = warns \o lk.w
                 \o (IF dup THEN <<Warn("DuplicateId", <<manual[1]>>, Sp(from, PosOf(tx, m.k + 1)))>> ELSE <<>>)
     /\ ln' = n1
     /\ cov' = Cover(Cover(Cover(cov, ln, m.k, "meta"), m.k, m.k + 1, "heading"), m.k + 1, n1, "blank")
     /\ last' = "open-section"
     /\ UNCHANGED <<i, d, phase, tx, hd, A>>

CloseSection ==
  \E f \in {Top}:
  \E id \in {IF f.gen THEN FreeId(cat, f.base, 1) ELSE <<>>}:
  LET
      b0 == Block(tx, f.m, "section", "section", "compound", Sp(f.from, TrimTo(tx, f.from, PosOf(tx, ln))),
                  f.u @@ [kids |-> f.kids])
      b == IF f.gen THEN [b0 EXCEPT !.id = <<id>>] ELSE b0
  IN /\ \E bb \in {b}: stack' = AddKid(Pop(stack), bb)
     /\ cat' = IF f.gen THEN Claim(cat, id, <<f.reft>>, "section") ELSE cat
     /\ num' = IF f.level = 1 /\ ~f.disc THEN [num EXCEPT !.top = "normal"] ELSE num
     /\ last' = "close-section"
     /\ UNCHANGED <<i, d, phase, tx, hd, A, warns, ln, cov>>

\* Blocks of the document before its first section form a preamble.
WithPreamble(f) ==
  LET ks == f.kids
      s == SelectInSeq(ks, LAMBDA b: b.kind = "section")
      pre == SubSeq(ks, 1, s - 1)
      content == s > 1 /\ SelectInSeq(pre, LAMBDA b: b.kind # "attr") > 0
      to == IF s > 1 THEN pre[Len(pre)].span[2] + 1 ELSE 0
      p == Block(tx, Meta0(1), "preamble", "preamble", "compound", Sp(f.from, to), [kids |-> pre])
  IN IF content THEN <<p>> \o SubSeq(ks, s, Len(ks)) ELSE ks
CloseDoc ==
  /\ \E ks \in {WithPreamble(Top)}: stack' = <<[Top EXCEPT !.kids = ks]>>
  /\ phase' = "done" /\ last' = "close-doc"
  /\ UNCHANGED <<i, d, tx, hd, A, warns, ln, cov, cat, num>>

Body ==
  /\ phase = "body"
  /\ \E lk \in {Look(ln)}:
        CASE lk.what = "close" -> (CASE Top.f = "doc" -> CloseDoc
                                     [] Top.f = "section" -> CloseSection
                                     [] Top.f = "compound" -> CloseCompound)
          [] lk.what = "entry" -> DoEntry(lk)
          [] lk.what = "raw" -> DoRaw(lk)
          [] lk.what = "compound" -> OpenCompound(lk)
          [] lk.what = "media" -> DoMedia(lk)
          [] lk.what = "section" -> OpenSection(lk)
          [] lk.what = "break" -> DoBreak(lk)
          [] lk.what = "simple" -> DoSimple(lk)

Header == HeaderSkipBlank \/ HeaderComment \/ HeaderEntry \/ HeaderTitle \/ HeaderAuthor
          \/ HeaderRevision \/ HeaderEnd

NextDoc ==   \* after the document: the next one of the case keeps the attributes
  IF d < Len(Case.docs) THEN Load(i, d + 1, A)
  ELSE Load(i + 1, 1, IF i < NCases THEN AttrsOf(Cases[i + 1]) ELSE <<>>)
=============================================================================
