------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* Attribute lists, the seven substitution steps, inline macros,           *)
(* passthroughs and the two renderers (the HTML renderer and the recording *)
(* renderer of the harness).                                               *)
(*                                                                         *)
(* An environment env is a record                                          *)
(*   [attrs |-> document attributes, rend |-> "html" or "sym"].            *)
(***************************************************************************)
EXTENDS Attrs, WebPath

RECURSIVE ApplyGroup(_, _, _, _)
RECURSIVE ParseAttrlist(_, _, _)

(***************************************************************************)
(* Attribute lists                                                         *)
(***************************************************************************)
ShDelim == {"#", "%", "."}
BlankNL == {SP, Tab, NL}
AttrNameRest == AsciiAlnum \cup {"-"}

\* Positions (1-based) at which the shorthand items of a value start.
RECURSIVE ShRest(_, _)
ShRest(v, i) ==
  \* v[i] is a delimiter
  IF i > Len(v) THEN [idx |-> <<>>, w |-> <<>>]
  ELSE LET j == IndexIn(v, ShDelim, i + 1)
           e == j = i + 1 \/ i = Len(v)              \* nothing after the delimiter
           r == ShRest(v, IF j = 0 THEN Len(v) + 1 ELSE j)
       IN [idx |-> <<i>> \o r.idx,
           w |-> (IF e THEN <<"EmptyShorthandItem">> ELSE <<>>) \o r.w]
ShIndices(v) ==
  IF v = <<>> THEN [idx |-> <<>>, w |-> <<>>]
  ELSE IF v[1] \in ShDelim THEN ShRest(v, 1)
  ELSE LET j == IndexIn(v, ShDelim, 1)
           e == IF j = 0 THEN Len(v) + 1 ELSE j
           b == Min2(SkipIn(v, Blank, 1), e)
           r == ShRest(v, e)
       IN [idx |-> <<b>> \o r.idx, w |-> r.w]
ShItems(v, idx) ==
  LET raw == [k \in 1..Len(idx) |->
                IF k < Len(idx) THEN Sub(v, idx[k], idx[k + 1]) ELSE From(v, idx[k])] \o <<>>
      kept == SelectSeq(raw, LAMBDA x: ~(Len(x) = 1 /\ x[1] \in ShDelim))
      trimmed == [k \in 1..Len(kept) |-> TrimEnd(kept[k], SpaceCh)] \o <<>>
  IN SelectSeq(trimmed, LAMBDA x: x # <<>>)

\* end (exclusive) of a quoted string starting at i (s[i] is the quote); 0 if unterminated
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, q, i) ==
  LET j == IndexC(s, q, i)
  IN IF j = 0 THEN 0
     ELSE IF j > i /\ s[j - 1] = BSL THEN QuoteEnd(s, q, j + 1)
     ELSE j

\* One attribute of the list, starting at position i of s.
ParseElement(s, i, env, sh, ctx) ==
  LET n0 == i
      nEnd == IF n0 <= Len(s) /\ s[n0] \in AsciiAlnum THEN SkipIn(s, AttrNameRest, n0 + 1) ELSE n0
      eq == SkipIn(s, BlankNL, nEnd)
      hasEq == nEnd > n0 /\ eq <= Len(s) /\ s[eq] = "="
      afterEq == SkipIn(s, BlankNL, eq + 1)
      named == hasEq /\ afterEq <= Len(s) /\ s[afterEq] # ","
      name == IF named THEN <<Sub(s, n0, nEnd)>> ELSE <<>>
      b == SkipIn(s, BlankNL, IF named THEN afterEq ELSE n0)
      first == IF b <= Len(s) THEN s[b] ELSE ""
      isQ == first = SQ \/ first = DQ
      qe == IF isQ THEN QuoteEnd(s, first, b + 1) ELSE 0
      comma == IndexC(s, ",", b)
      stop == IF comma = 0 THEN Len(s) + 1 ELSE comma
      raw == IF qe > 0 THEN Sub(s, b + 1, qe) ELSE TrimEnd(Sub(s, b, stop), {SP})
      after == IF qe > 0 THEN qe + 1 ELSE stop
      unesc == IF isQ THEN Repl(raw, <<BSL, first>>, <<first>>) ELSE raw
      val == IF first = SQ /\ ctx = "block"
             THEN ApplyGroup(unesc, [g |-> "normal", steps |-> <<>>], env, <<>>)
             ELSE unesc
      doSh == name = <<>> /\ sh /\ qe = 0
      shi == IF doSh THEN ShIndices(val) ELSE [idx |-> <<>>, w |-> <<>>]
  IN [attr |-> [n |-> name, v |-> val, sh |-> ShItems(val, shi.idx)],
      next |-> after,
      warns |-> (IF isQ /\ qe = 0 THEN <<"AttributeValueMissingTerminatingQuote">> ELSE <<>>) \o shi.w]

NoneText == C("None")

RECURSIVE AlLoop(_, _, _, _, _, _, _)
AlLoop(s, i, sh, attrs, warns, env, ctx) ==
  LET e == ParseElement(s, i, env, sh, ctx)
      w1 == warns \o e.warns
      pos == e.attr.n = <<>>
      sh1 == sh /\ ~pos
      nothing == pos /\ e.attr.v = <<>> /\ e.next > Len(s) /\ attrs = <<>>
      attrs1 == IF pos \/ e.attr.v # NoneText THEN Append(attrs, e.attr) ELSE attrs
      a == SkipIn(s, Blank, e.next)
      hasComma == a <= Len(s) /\ s[a] = ","
      c == SkipIn(s, Blank, a + 1)
      double == hasComma /\ c <= Len(s) /\ s[c] = ","
      fin(at, end, w) == [attrs |-> at,
                          warns |-> w \o (IF end <= Len(s)
                                          THEN <<"MissingCommaAfterQuotedAttributeValue">> ELSE <<>>)]
  IN IF nothing THEN fin(attrs, i, w1)
     ELSE IF ~hasComma THEN fin(attrs1, a, w1)
     ELSE IF double THEN AlLoop(s, c + 1, sh1, attrs1, Append(w1, "EmptyAttributeValue"), env, ctx)
     ELSE AlLoop(s, c, sh1, attrs1, w1, env, ctx)

AttrRefName == Cat(<<In(AsciiAlnum \cup {"_"}), Star(In(AsciiAlnum \cup {"_", "-"}))>>)
RxAttrRef == Compile(Cat(<<Opt(Ch(BSL)), Ch("{"), Cap(1, AttrRefName), Ch("}")>>), 1)
SubAttrRefs(s, A) ==
  IF ~HasC(s, "{") THEN s
  ELSE ReplaceAllM(RxAttrRef, s, LAMBDA d, m:
         LET n == G(s, m, 1)
             w == M0(s, m)
         IN d \o (IF ~HasAttr(A, n) THEN w
                  ELSE IF w[1] = BSL THEN From(w, 2)
                  ELSE RefText(A, n)))

EmptyAl == [attrs |-> <<>>, anchor |-> <<>>, warns |-> <<>>]
\* ctx: "block" or "inline"
ParseAttrlist(src, env, ctx) ==
  LET s == IF HasC(src, "{") /\ HasC(src, "}") THEN SubAttrRefs(src, env.attrs) ELSE src
  IN IF StartsC(s, "[") /\ EndsC(s, "]")
     THEN [attrs |-> <<>>, anchor |-> <<SubSeq(s, 2, Len(s) - 1)>>, warns |-> <<>>]
     ELSE LET r == AlLoop(s, 1, TRUE, <<>>, <<>>, env, ctx)
          IN [attrs |-> r.attrs, anchor |-> <<>>, warns |-> r.warns]

Positionals(al) == SelectSeq(al.attrs, LAMBDA a: a.n = <<>>)
Nth(al, n) == LET p == Positionals(al) IN IF n <= Len(p) THEN <<p[n]>> ELSE <<>>
Named(al, name) ==
  LET q == SelectSeq(al.attrs, LAMBDA a: a.n # <<>> /\ a.n[1] = name)
  IN IF q = <<>> THEN <<>> ELSE <<q[1]>>
NamedOrNth(al, name, n) == LET x == Named(al, name) IN IF x # <<>> THEN x ELSE Nth(al, n)
ValOf(o) == IF o = <<>> THEN <<>> ELSE <<o[1].v>>        \* optional value of an optional attribute

ShOf(al, d) ==
  LET f == Nth(al, 1)
  IN IF f = <<>> THEN <<>>
     ELSE LET q == SelectSeq(f[1].sh, LAMBDA x: x[1] = d)
          IN [k \in 1..Len(q) |-> From(q[k], 2)] \o <<>>
K_id == C("id")
K_role == C("role")
K_opts == C("opts")
K_options == C("options")
AlId(al) ==
  IF al.anchor # <<>> THEN al.anchor
  ELSE LET s == ShOf(al, "#")
       IN IF s # <<>> THEN <<s[1]>> ELSE ValOf(Named(al, K_id))
Pieces(t, c) == SelectSeq(Split(t, c), LAMBDA x: x # <<>>)
AlRoles(al) ==
  LET r == Named(al, K_role)
  IN ShOf(al, ".") \o (IF r = <<>> THEN <<>> ELSE Pieces(r[1].v, SP))
AlOpts(al) ==
  LET a == Named(al, K_opts)
      b == Named(al, K_options)
  IN ShOf(al, "%") \o (IF a = <<>> THEN <<>> ELSE Pieces(a[1].v, ","))
                   \o (IF b = <<>> THEN <<>> ELSE Pieces(b[1].v, ","))
AlHasOpt(al, o) == o \in ToSet(AlOpts(al))
AlStyle(al) ==
  LET f == Nth(al, 1)
  IN IF f = <<>> \/ f[1].sh = <<>> THEN <<>>
     ELSE IF HasIn(f[1].sh[1], ShDelim) THEN <<>> ELSE <<f[1].sh[1]>>

(***************************************************************************)
(* Renderers                                                               *)
(***************************************************************************)
Tok(parts) == <<TokOpen>> \o Join(parts, <<TokSep>>) \o <<TokClose>>
OrE(o) == IF o = <<>> THEN <<>> ELSE o[1]
AlTok(al) == OrE(AlStyle(al)) \o <<"/">> \o OrE(AlId(al)) \o <<"/">>
             \o Join(AlRoles(al), <<".">>) \o <<"/">> \o Join(AlOpts(al), <<"%">>)

E_lt == C("&lt;")
E_gt == C("&gt;")
E_amp == C("&amp;")
T_lt == Tok(<<C("lt")>>)
T_gt == Tok(<<C("gt")>>)
T_amp == Tok(<<C("amp")>>)
RSpecial(env, c) ==
  IF env.rend = "html"
  THEN (CASE c = "<" -> E_lt [] c = ">" -> E_gt [] c = "&" -> E_amp)
  ELSE (CASE c = "<" -> T_lt [] c = ">" -> T_gt [] c = "&" -> T_amp)

H_idq == C(" id=\"")
H_classq == C(" class=\"")
Tags == [strong |-> C("strong"), mono |-> C("code"), emph |-> C("em"), mark |-> C("mark"),
         sup |-> C("sup"), sub |-> C("sub"), span |-> C("span")]
SymQ == [strong |-> C("strong"), dquote |-> C("dquote"), squote |-> C("squote"), mono |-> C("mono"),
         emph |-> C("emph"), mark |-> C("mark"), sup |-> C("sup"), sub |-> C("sub"), unq |-> C("unq")]
H_close == C("</")
Wrap(tag, id, roles, body) ==
  <<"<">> \o tag \o (IF id # <<>> THEN H_idq \o id[1] \o <<DQ>> ELSE <<>>)
  \o (IF roles # <<>> THEN H_classq \o Join(roles, <<SP>>) \o <<DQ>> ELSE <<>>)
  \o <<">">> \o body \o H_close \o tag \o <<">">>
H_ldq == C("&#8220;")
H_rdq == C("&#8221;")
H_lsq == C("&#8216;")
H_rsq == C("&#8217;")
\* al: <<>> or <<attrlist>>
RQuote(env, type, scope, al, body) ==
  LET id == IF al = <<>> THEN <<>> ELSE AlId(al[1])
      roles == IF al = <<>> THEN <<>> ELSE AlStyle(al[1]) \o AlRoles(al[1])
      bare == roles = <<>> /\ id = <<>>
  IN IF env.rend = "sym"
     THEN Tok(<<SymQ[type], <<scope>>, OrE(id), IF al = <<>> THEN <<>> ELSE AlTok(al[1]), body>>)
     ELSE CASE type = "dquote" -> H_ldq \o body \o H_rdq
            [] type = "squote" -> H_lsq \o body \o H_rsq
            [] type = "unq" -> IF bare THEN body ELSE Wrap(Tags.span, id, roles, body)
            [] type = "mark" -> Wrap(IF bare THEN Tags.mark ELSE Tags.span, id, roles, body)
            [] OTHER -> Wrap(Tags[type], id, roles, body)

HtmlRepl == [copy |-> C("&#169;"), reg |-> C("&#174;"), tm |-> C("&#8482;"),
             emdashsp |-> C("&#8201;&#8212;&#8201;"), emdash |-> C("&#8212;&#8203;"),
             ellipsis |-> C("&#8230;&#8203;"), larr |-> C("&#8592;"), ldarr |-> C("&#8656;"),
             rarr |-> C("&#8594;"), rdarr |-> C("&#8658;"), apos |-> C("&#8217;")]
SymRepl == [copy |-> Tok(<<C("copy")>>), reg |-> Tok(<<C("reg")>>), tm |-> Tok(<<C("tm")>>),
            emdashsp |-> Tok(<<C("emdashsp")>>), emdash |-> Tok(<<C("emdash")>>),
            ellipsis |-> Tok(<<C("ellipsis")>>), larr |-> Tok(<<C("larr")>>),
            ldarr |-> Tok(<<C("ldarr")>>), rarr |-> Tok(<<C("rarr")>>),
            rdarr |-> Tok(<<C("rdarr")>>), apos |-> Tok(<<C("apos")>>)]
RRepl(env, what) == IF env.rend = "html" THEN HtmlRepl[what] ELSE SymRepl[what]
K_cref == C("cref")
RCref(env, name) == IF env.rend = "html" THEN <<"&">> \o name \o <<";">> ELSE Tok(<<K_cref, name>>)
H_br == C("<br>")
T_br == Tok(<<C("br")>>)
RBreak(env) == IF env.rend = "html" THEN H_br ELSE T_br

RxUriIsh == Compile(Cat(<<In(Alphabetic), Plus(In(Alphabetic \cup Nd \cup {".", "+", "-"})), Ch(":"),
                          Opt(Ch("/")), Opt(Ch("/"))>>), 0)
UriIsh(t) == HasC(t, ":") /\ Matches(RxUriIsh, t)
P_20 == C("%20")
ImageUri(env, target, dirAttr) ==
  IF UriIsh(target) THEN Repl(target, <<SP>>, P_20)
  ELSE WebPathOf(target, AttrStr(env.attrs, dirAttr))

EncQ(t) == Repl(t, <<DQ>>, C("&quot;"))
K_nofollow == C("nofollow")
K_noopener == C("noopener")
K_window == C("window")
K_blank == C("_blank")
H_relNofollow == C(" rel=\"nofollow\"")
H_relBoth == C(" rel=\"nofollow\" noopener")        \* sic: pinned by existing tests
H_relRight == C(" rel=\"nofollow noopener\"")       \* what the language says
H_relNoopener == C(" rel=\"noopener\"")
H_target == C(" target=\"")
LinkConstraint(al, window) ==
  LET nf == AlHasOpt(al, K_nofollow)
      w0 == ValOf(Named(al, K_window))
      w == IF w0 # <<>> THEN w0 ELSE window
  IN IF w # <<>>
     THEN H_target \o w[1] \o <<DQ>>
          \o (IF w[1] = K_blank \/ AlHasOpt(al, K_noopener)
              THEN (IF nf THEN H_relBoth ELSE H_relNoopener) ELSE <<>>)
     ELSE IF nf THEN H_relNofollow ELSE <<>>

K_link == C("link")
K_self == C("self")
K_float == C("float")
H_aimg == C("<a class=\"image\" href=\"")
H_aend == C("</a>")
H_span == C("<span class=\"")
H_q_gt == C("\">")
H_spanEnd == C("</span>")
IconOrImage(al, img, src, type) ==
  LET l == ValOf(Named(al, K_link))
      href == IF l # <<>> /\ l[1] = K_self THEN src ELSE OrE(l)
      inner == IF l = <<>> THEN img
               ELSE H_aimg \o href \o <<DQ>> \o LinkConstraint(al, <<>>) \o <<">">> \o img \o H_aend
      roles == <<type>> \o ValOf(Named(al, K_float)) \o AlRoles(al)
  IN H_span \o Join(roles, <<SP>>) \o H_q_gt \o inner \o H_spanEnd

K_image == C("image")
K_icon == C("icon")
K_title == C("title")
K_alt == C("alt")
K_width == C("width")
K_height == C("height")
K_size == C("size")
K_flip == C("flip")
K_rotate == C("rotate")
K_icons == C("icons")
K_font == C("font")
K_icontype == C("icontype")
K_iconsdir == C("iconsdir")
K_imagesdir == C("imagesdir")
K_png == C("png")
Attr_(name, v) == <<SP>> \o name \o <<"=", DQ>> \o v \o <<DQ>>
OptAttr(name, o) == IF o = <<>> THEN <<>> ELSE Attr_(name, o[1])
K_src == C("src")
H_img == C("<img")
RImage(env, target, alt, width, height, al) ==
  IF env.rend = "sym" THEN Tok(<<K_image, target, alt, OrE(width), OrE(height), AlTok(al)>>)
  ELSE LET src == ImageUri(env, target, K_imagesdir)
           t == ValOf(Named(al, K_title))
           img == H_img \o Attr_(K_src, src) \o Attr_(K_alt, EncQ(alt))
                  \o OptAttr(K_width, width) \o OptAttr(K_height, height)
                  \o (IF t = <<>> THEN <<>> ELSE Attr_(K_title, EncQ(t[1]))) \o <<">">>
       IN IconOrImage(al, img, src, K_image)
H_iclass == C("<i class=\"fa fa-")
H_iend == C("></i>")
H_flip == C(" fa-flip-")
H_rotate == C(" fa-rotate-")
H_fa == C(" fa-")
H_93 == C("&#93;")
RIcon(env, target, alt, size, al) ==
  IF env.rend = "sym" THEN Tok(<<K_icon, target, alt, OrE(size), AlTok(al)>>)
  ELSE LET A == env.attrs
           typ == LET o == AttrStr(A, K_icontype) IN IF o = <<>> THEN K_png ELSE o[1]
           src == ImageUri(env, target \o <<".">> \o typ, K_iconsdir)
           sz == ValOf(NamedOrNth(al, K_size, 1))
           fl == ValOf(Named(al, K_flip))
           ro == ValOf(Named(al, K_rotate))
           t == ValOf(Named(al, K_title))
           img ==
             IF ~HasAttr(A, K_icons) THEN <<"[">> \o alt \o H_93
             ELSE IF AttrStr(A, K_icons) = <<K_font>>
             THEN H_iclass \o target
                  \o (IF sz = <<>> THEN <<>> ELSE H_fa \o sz[1])
                  \o (IF fl # <<>> THEN H_flip \o fl[1]
                      ELSE IF ro # <<>> THEN H_rotate \o ro[1] ELSE <<>>)
                  \o <<DQ>> \o OptAttr(K_title, t) \o H_iend
             ELSE H_img \o Attr_(K_src, src) \o Attr_(K_alt, EncQ(alt))
                  \o OptAttr(K_width, ValOf(Named(al, K_width)))
                  \o OptAttr(K_height, ValOf(Named(al, K_height)))
                  \o OptAttr(K_title, t) \o <<">">>
       IN IconOrImage(al, img, src, K_icon)

H_href == C("<a href=\"")
RLink(env, target, text, extra, window, al) ==
  IF env.rend = "sym"
  THEN Tok(<<K_link, target, Join(extra, <<".">>), OrE(window), AlTok(al), text>>)
  ELSE LET id == AlId(al)
           roles == extra \o AlRoles(al)
       IN H_href \o target \o <<DQ>>
          \o (IF id = <<>> THEN <<>> ELSE H_idq \o id[1] \o <<DQ>>)
          \o (IF roles = <<>> THEN <<>> ELSE H_classq \o Join(roles, <<SP>>) \o <<DQ>>)
          \o LinkConstraint(al, window) \o <<">">> \o text \o H_aend
K_anchor == C("anchor")
H_aid == C("<a id=\"")
H_aidEnd == C("\"></a>")
RAnchor(env, id, reftext) ==
  IF env.rend = "sym" THEN Tok(<<K_anchor, id, OrE(reftext)>>)
  ELSE H_aid \o id \o H_aidEnd

(***************************************************************************)
(* Step: special characters                                                *)
(***************************************************************************)
Specials == {"<", ">", "&"}
StepSpecial(s, env) ==
  IF ~HasIn(s, Specials) THEN s
  ELSE FoldLeft(LAMBDA d, c: IF c \in Specials THEN d \o RSpecial(env, c) ELSE Append(d, c), <<>>, s)

(***************************************************************************)
(* Step: quotes                                                            *)
(***************************************************************************)
NonSpace == NotIn(SpaceCh)
AttrG(g) == Opt(Cat(<<Ch("["), Cap(g, Plus(NotIn({"[", "]"}))), Ch("]")>>))
Uncon(mark, body) ==
  Compile(Cat(<<Opt(Ch(BSL)), AttrG(1), Lit(mark), Cap(2, PlusLazy(body)), Lit(mark)>>), 2)
ConBody == Alt(<<NonSpace, Cat(<<NonSpace, StarLazy(AnyCh), NonSpace>>)>>)
ConPre == WordCh \cup {"&", ";", ":", "}"}
Con(pre, open, close) ==
  Compile(Cat(<<Cap(1, Alt(<<Bol, NotIn(pre)>>)), AttrG(2), Lit(open), Cap(3, ConBody), Lit(close),
                EndHalf>>), 3)
Q(type, scope, re, need) == [type |-> type, scope |-> scope, re |-> re, need |-> need]
QuoteSubs == <<
  Q("strong", "u", Uncon("**", AnyCh), "*"),
  Q("strong", "c", Con(ConPre, "*", "*"), "*"),
  Q("dquote", "c", Con(ConPre, "\"`", "`\""), BT),
  Q("squote", "c", Con(ConPre, "'`", "`'"), BT),
  Q("mono", "u", Uncon("``", AnyCh), BT),
  Q("mono", "c", Con(ConPre \cup {DQ, SQ, BT}, "`", "`"), BT),
  Q("emph", "u", Uncon("__", AnyCh), "_"),
  Q("emph", "c", Con(ConPre, "_", "_"), "_"),
  Q("mark", "u", Uncon("##", AnyCh), "#"),
  Q("mark", "c", Con(ConPre, "#", "#"), "#"),
  Q("sup", "u", Uncon("^", NonSpace), "^"),
  Q("sub", "u", Uncon("~", NonSpace), "~") >>
QuoteMarks == {"*", "_", BT, "#", "^", "~"}

\* What one match is replaced with.
QuoteOut(h, m, q, env) ==
  LET w == M0(h, m)
      ag == IF q.scope = "c" THEN 2 ELSE 1
      al == IF HasG(m, ag) THEN <<ParseAttrlist(G(h, m, ag), env, "inline")>> ELSE <<>>
      type == IF al # <<>> /\ q.type = "mark" THEN "unq" ELSE q.type
  IN IF w[1] = BSL
     THEN (IF q.scope = "c" /\ HasG(m, 2)
           THEN <<"[">> \o G(h, m, 2) \o <<"]">> \o RQuote(env, q.type, "c", <<>>, G(h, m, 3))
           ELSE From(w, 2))
     ELSE IF q.scope = "c"
     THEN G(h, m, 1) \o RQuote(env, type, "c", al, G(h, m, 3))
     ELSE RQuote(env, type, "u", al, G(h, m, 2))
\* A monospace match directly followed by a quote mark is not one: skip its first
\* character (two if escaped) and look again.
RECURSIVE QuoteScan(_, _, _, _, _)
QuoteScan(h, from, done, q, env) ==
  LET m == Find(q.re, h, from)
  IN IF m = <<>> THEN done \o From(h, from)
     ELSE LET st == m[1][1]
              en == m[1][2]
              skip == q.type = "mono" /\ q.scope = "c" /\ en <= Len(h) /\ h[en] \in {DQ, SQ, BT}
              n == IF h[st] = BSL THEN 2 ELSE 1
          IN IF skip THEN QuoteScan(From(h, st + n), 1, done \o Sub(h, from, st + n), q, env)
             ELSE QuoteScan(h, en, done \o Sub(h, from, st) \o QuoteOut(h, m, q, env), q, env)
StepQuotes(s, env) ==
  IF ~HasIn(s, QuoteMarks) THEN s
  ELSE FoldLeft(LAMBDA t, q: IF HasC(t, q.need) THEN QuoteScan(t, 1, <<>>, q, env) ELSE t, s, QuoteSubs)

(***************************************************************************)
(* Step: character replacements                                            *)
(***************************************************************************)
Esc == Opt(Ch(BSL))
RxReplSniff == Compile(Alt(<<In({"&", SQ}), Lit("--"), Lit("..."),
                             Cat(<<Ch("("), In({"C", "R", "T"}), Opt(Ch("M")), Ch(")")>>)>>), 0)
HexU == Nd \cup ToSet(C("abcdefABCDEF"))
CrefBody == Alt(<<
  Cat(<<In(AsciiAlpha), Plus(In(AsciiAlpha)), UptoN(In(Nd), 2)>>),
  Cat(<<Ch("#"), In(Nd), In(Nd), UptoN(In(Nd), 4)>>),
  Cat(<<Lit("#x"), In(HexU), In(HexU), UptoN(In(HexU), 3)>>)>>)
R(what, re, need) == [what |-> what, re |-> re, need |-> need]
Replacements == <<
  R("copy", Compile(Cat(<<Esc, Lit("(C)")>>), 0), "("),
  R("reg", Compile(Cat(<<Esc, Lit("(R)")>>), 0), "("),
  R("tm", Compile(Cat(<<Esc, Lit("(TM)")>>), 0), "("),
  R("emdashsp", Compile(Cat(<<Alt(<<Ch(SP), Ch(NL), Bol, Ch(BSL)>>), Lit("--"),
                              Alt(<<Ch(SP), Ch(NL), Eol>>)>>), 0), "-"),
  R("emdash", Compile(Cat(<<Cap(1, In(WordCh)), Esc, Lit("--"), At("ws")>>), 1), "-"),
  R("ellipsis", Compile(Cat(<<Esc, Lit("...")>>), 0), "."),
  R("apos", Compile(Cat(<<Esc, Lit("`'")>>), 0), SQ),
  R("aposword", Compile(Cat(<<Cap(1, In(AsciiAlnum)), Esc, Ch(SQ)>>), 1), SQ),
  R("rarr", Compile(Cat(<<Esc, Lit("-&gt;")>>), 0), "&"),
  R("rdarr", Compile(Cat(<<Esc, Lit("=&gt;")>>), 0), "&"),
  R("larr", Compile(Cat(<<Esc, Lit("&lt;-")>>), 0), "&"),
  R("ldarr", Compile(Cat(<<Esc, Lit("&lt;=")>>), 0), "&"),
  R("cref", Compile(Cat(<<Esc, Lit("&amp;"), Cap(1, CrefBody), Ch(";")>>), 1), "&") >>
ReplOut(s, m, r, env) ==
  LET w == M0(s, m)
  IN IF r.what = "aposword" /\ ~(m[1][2] <= Len(s) /\ s[m[1][2]] \in AsciiAlpha) THEN w
     ELSE IF HasC(w, BSL) THEN SelectSeq(w, LAMBDA c: c # BSL)
     ELSE CASE r.what = "emdash"   -> G(s, m, 1) \o RRepl(env, "emdash")
            [] r.what = "aposword" -> G(s, m, 1) \o RRepl(env, "apos")
            [] r.what = "cref"     -> RCref(env, G(s, m, 1))
            [] OTHER               -> RRepl(env, r.what)
StepReplacements(s, env) ==
  IF ~IsMatch(RxReplSniff, s) THEN s
  ELSE FoldLeft(LAMBDA t, r:
         IF HasC(t, r.need)
         THEN ReplaceAllM(r.re, t, LAMBDA d, m: d \o ReplOut(t, m, r, env)) ELSE t,
         s, Replacements)

(***************************************************************************)
(* Step: macros                                                            *)
(***************************************************************************)
BracketText == Alt(<<Empty, Cat(<<StarLazy(AnyCh), NotIn({BSL})>>)>>)
RxImage == Compile(Cat(<<
  Opt(Ch(BSL)), Ch("i"), Alt(<<Lit("mage"), Lit("con")>>), Ch(":"),
  Cap(1, Cat(<<NotIn(SpaceCh \cup {":", "[", NL}),
               Opt(Cat(<<StarLazy(NotIn({"[", NL})), NotIn(SpaceCh \cup {"[", NL})>>))>>)),
  Ch("["), Cap(2, BracketText), Ch("]")>>), 2)

\* std::path::Path::file_stem
RECURSIVE LastComponent(_)
LastComponent(p) ==
  LET q == TrimEnd(p, {"/"})
  IN IF q = <<>> THEN <<>>
     ELSE IF EndsW(q, C("/.")) THEN LastComponent(Upto(q, Len(q) - 2))
     ELSE From(q, LastIn(q, {"/"}) + 1)
FileStem(p) ==
  LET c == LastComponent(p)
      d == LastIn(c, {"."})
  IN IF c = DotDot \/ c = <<".">> THEN <<>>
     ELSE IF d <= 1 THEN c ELSE Upto(c, d - 1)
BSLClose == <<BSL, "]">>
NormText(t) == Repl([i \in 1..Len(t) |-> IF t[i] = NL THEN SP ELSE t[i]] \o <<>>, BSLClose, <<"]">>)
K_imageColon == C("image:")
K_iconColon == C("icon:")
ImageOut(s, m, env) ==
  LET w == M0(s, m)
      target == G(s, m, 1)
      al == ParseAttrlist(G(s, m, 2), env, "inline")
      spaced == [i \in 1..Len(target) |-> IF target[i] \in {"_", "-"} THEN SP ELSE target[i]] \o <<>>
      alt(o) == IF o = <<>> THEN FileStem(spaced) ELSE NormText(o[1].v)
  IN IF w[1] = BSL THEN From(w, 2)
     ELSE IF StartsW(w, K_imageColon)
     THEN RImage(env, target, alt(NamedOrNth(al, K_alt, 1)),
                 ValOf(NamedOrNth(al, K_width, 2)), ValOf(NamedOrNth(al, K_height, 3)), al)
     ELSE RIcon(env, target, alt(Named(al, K_alt)), ValOf(NamedOrNth(al, K_size, 1)), al)

Scheme == Cat(<<Alt(<<Cat(<<Lit("http"), Opt(Ch("s"))>>), Lit("file"), Lit("ftp"), Lit("irc")>>), Lit("://")>>)
LinkPrefixCh == {">", "(", ")", "[", "]", ";", DQ, SQ}
RxLink == Compile(Cat(<<
  Cap(1, Alt(<<BolM, Lit("link:"), In(Blank), Cat(<<Esc, Lit("&lt;"), Cap(2, Empty)>>), In(LinkPrefixCh)>>)),
  Cap(3, Cat(<<Esc, Scheme>>)),
  Alt(<<
    Cat(<<Cap(4, Plus(NotIn(SpaceCh \cup {"[", "]"}))), Ch("["), Cap(5, BracketText), Ch("]")>>),
    Cat(<<Cap(6, PlusLazy(NonSpace)), Lit("&gt;")>>),
    Cap(7, Cat(<<Star(NotIn(SpaceCh \cup {"[", "]", "<"})),
                 Cap(8, NotIn(SpaceCh \cup {",", ".", "?", "!", "[", "]", "<", ")"}))>>))
  >>)>>), 8)

\* (the regex crate's \p{alpha} and \p{digit})
RxUriStrip == Compile(Cat(<<In(Alphabetic), Plus(In(Alphabetic \cup Nd \cup {".", "+", "-"})), Ch(":"),
                          Opt(Ch("/")), Opt(Ch("/"))>>), 0)
StripScheme(t) == LET m == MatchAt(RxUriStrip, t, 1) IN IF m = <<>> THEN t ELSE From(t, m[1][2])
K_hideUri == C("hide-uri-scheme")
K_bare == C("bare")
K_linkColon == C("link:")
ShownTarget(env, t) == IF IsSet(env.attrs, K_hideUri) THEN StripScheme(t) ELSE t

\* Link text containing attributes: first positional attribute is the text.
TextAndAttrs(t, env) ==
  LET al == ParseAttrlist(t, env, "inline")
      f == Nth(al, 1)
  IN [t |-> IF f = <<>> THEN <<>> ELSE f[1].v, al |-> al]
BSLDQ == <<BSL, DQ>>

LinkOut(s, m, env) ==
  LET w == M0(s, m)
      g1 == G(s, m, 1)
      g3 == G(s, m, 3)
      angle == HasG(m, 2) /\ ~HasG(m, 5)
      unescScheme == g1 \o From(w, Len(g1) + 2)
      aTarget == g3 \o GOr(s, m, 6, <<>>)
      formal == HasG(m, 5)
      rest == IF HasG(m, 4) THEN G(s, m, 4) ELSE IF HasG(m, 6) THEN G(s, m, 6) ELSE G(s, m, 7)
      tail == GOr(s, m, 8, <<>>)
      quotedPrefix == g1 = K_linkColon \/ g1 = <<DQ>> \/ g1 = <<SQ>>
      cut == ~formal /\ (tail = <<";">> \/ tail = <<":">>)
      t0 == g3 \o rest
      t1 == IF cut THEN Upto(t0, Len(t0) - 1) ELSE t0
      cut2 == cut /\ EndsC(t1, ")")
      target == IF cut2 THEN Upto(t1, Len(t1) - 1) ELSE t1
      suffix == IF cut2 THEN <<")">> \o tail ELSE IF cut THEN tail
                ELSE IF ~formal /\ HasG(m, 6) THEN E_gt ELSE <<>>
      prefix == IF formal /\ g1 = K_linkColon THEN <<>> ELSE g1
      raw == IF formal THEN G(s, m, 5) ELSE <<>>
      unesc == Repl(raw, BSLClose, <<"]">>)
      withAttrs == raw # <<>> /\ HasC(unesc, "=")
      ta == IF withAttrs THEN TextAndAttrs(raw, env) ELSE [t |-> unesc, al |-> EmptyAl]
      txt == IF withAttrs THEN Repl(ta.t, BSLDQ, <<DQ>>) ELSE unesc
      caret == raw # <<>> /\ EndsC(txt, "^")
      txt1 == IF caret THEN Upto(txt, Len(txt) - 1) ELSE txt
      bare == txt1 = <<>>
  IN IF angle
     THEN IF g1[1] = BSL THEN From(w, 2)
          ELSE IF g3[1] = BSL THEN unescScheme
          ELSE IF ~HasG(m, 6) THEN w
          ELSE RLink(env, aTarget, ShownTarget(env, aTarget), <<K_bare>>, <<>>, EmptyAl)
     ELSE IF g3[1] = BSL THEN unescScheme
     ELSE IF ~formal /\ quotedPrefix THEN w
     ELSE prefix \o RLink(env, target, IF bare THEN ShownTarget(env, target) ELSE txt1,
                          IF bare THEN <<K_bare>> ELSE <<>>,
                          IF caret THEN <<K_blank>> ELSE <<>>, ta.al) \o suffix

RxLinkMacro == Compile(Cat(<<
  Esc, Alt(<<Lit("link"), Cap(1, Lit("mailto"))>>), Ch(":"), Cap(2, Empty),
  Cap(3, Cat(<<NotIn(SpaceCh \cup {":", "["}), Star(NotIn(SpaceCh \cup {"["}))>>)),
  Ch("["), Alt(<<Cap(4, Empty), Cap(5, Cat(<<StarLazy(AnyCh), NotIn({BSL})>>))>>), Ch("]")>>), 5)

UriSafe == AsciiAlnum \cup {"*", "-", ".", "_", "~"}
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
PctByte(b) == <<"%", HexDigit[(b \div 16) + 1], HexDigit[(b % 16) + 1]>>
AsciiOrder == CharTable["ascii"]             \* all ASCII characters in order, starting at U+0000
AsciiCode(c) == SelectInSeq(AsciiOrder, LAMBDA x: x = c) - 1
UriEnc(t) ==
  FoldLeft(LAMBDA d, c:
    IF c \in UriSafe THEN Append(d, c)
    ELSE IF c \in Utf8Dom THEN d \o Concat([k \in 1..Len(Utf8Map[c]) |-> PctByte(Utf8Map[c][k])] \o <<>>)
    ELSE d \o PctByte(AsciiCode(c)), <<>>, t)

K_mailto == C("mailto:")
K_subject == C("?subject=")
K_body == C("&amp;body=")
LinkMacroOut(s, m, env) ==
  LET w == M0(s, m)
      mail == HasG(m, 1)
      raw3 == G(s, m, 3)
      t0 == IF mail THEN K_mailto \o raw3 ELSE raw3
      raw == GOr(s, m, 5, <<>>)
      flat == [i \in 1..Len(raw) |-> IF raw[i] = NL THEN SP ELSE raw[i]] \o <<>>
      unesc == Repl(raw, BSLClose, <<"]">>)
      withAttrs == raw # <<>> /\ (IF mail THEN HasC(unesc, ",") ELSE HasC(unesc, "="))
      ta == IF withAttrs THEN TextAndAttrs(flat, env) ELSE [t |-> unesc, al |-> EmptyAl]
      subj == IF mail /\ withAttrs THEN Nth(ta.al, 2) ELSE <<>>
      body == IF subj # <<>> THEN Nth(ta.al, 3) ELSE <<>>
      target == t0 \o (IF subj = <<>> THEN <<>> ELSE K_subject \o UriEnc(subj[1].v))
                   \o (IF body = <<>> THEN <<>> ELSE K_body \o UriEnc(body[1].v))
      caret == raw # <<>> /\ EndsC(ta.t, "^")
      txt == IF caret THEN Upto(ta.t, Len(ta.t) - 1) ELSE ta.t
      stripped == ShownTarget(env, target)
      shown == IF txt # <<>> THEN txt
               ELSE IF mail THEN raw3
               ELSE IF stripped = <<>> THEN target ELSE stripped
  IN IF w[1] = BSL THEN From(w, 2)
     ELSE RLink(env, target, shown, IF txt = <<>> /\ ~mail THEN <<K_bare>> ELSE <<>>,
                IF caret THEN <<K_blank>> ELSE <<>>, ta.al)

RxEmail == Compile(Cat(<<
  Cap(1, Opt(In({BSL, ">", ":", "/"}))),
  Cap(2, Cat(<<In(WordCh), Star(Alt(<<Lit("&amp;"), In(WordCh \cup {"-", ".", "%", "+"})>>)), Ch("@"),
               In(LetterL \cup Nd), Star(In(LetterL \cup Nd \cup {"_", "-", "."})), Ch("."),
               In(AsciiAlpha), In(AsciiAlpha), UptoN(In(AsciiAlpha), 3)>>)),
  WordB>>), 2)
\* From which positions the local part of an address could run up to an @ (or
\* the character before it)
LocalCh == WordCh \cup {"-", ".", "%", "+"}
K_ampEnt == C("&amp;")
EmailStarts(s) ==
  LET n == Len(s)
      \* r: the run from here reaches an @, for the last positions of s
      r == FoldLeft(LAMBDA a, j:
             LET i == n + 1 - j
             IN << s[i] = "@" \/ (s[i] \in LocalCh /\ a # <<>> /\ a[1])
                   \/ (s[i] = "&" /\ Len(a) >= 5 /\ a[5] /\ SubSeq(s, i, i + 4) = K_ampEnt) >> \o a,
             <<>>, [j \in 1..n |-> j] \o <<>>)
  IN [i \in 1..n |-> r[i] \/ (i < n /\ r[i + 1])] \o <<>>
EmailOut(s, m, env) ==
  LET w == M0(s, m)
      e == G(s, m, 1)
      a == G(s, m, 2)
  IN IF e = <<BSL>> THEN From(w, 2)
     ELSE IF e # <<>> THEN w
     ELSE RLink(env, K_mailto \o a, a, <<>>, <<>>, EmptyAl)

AnchorId == Cat(<<In(Alphabetic \cup {"_", ":"}), Star(In(Alphabetic \cup Nd \cup {"_", "-", ":", "."}))>>)
RxAnchor == Compile(Cat(<<
  Opt(Cap(1, Ch(BSL))),
  Alt(<<
    Cat(<<Lit("[["), Cap(2, AnchorId),
          Opt(Cat(<<Ch(","), Star(In(SpaceCh)), Cap(3, PlusLazy(Dot))>>)), Lit("]]")>>),
    Cat(<<Lit("anchor:"), Cap(4, AnchorId), Ch("["),
          Alt(<<Ch("]"), Cat(<<Cap(5, Cat(<<StarLazy(Dot), NotIn({BSL})>>)), Ch("]")>>)>>)>>)
  >>)>>), 5)
AnchorOut(s, m, env) ==
  IF HasG(m, 1) THEN From(M0(s, m), 2)
  ELSE IF HasG(m, 2)
  THEN RAnchor(env, G(s, m, 2), IF HasG(m, 3) THEN <<G(s, m, 3)>> ELSE <<>>)
  ELSE RAnchor(env, G(s, m, 4), IF HasG(m, 5) THEN <<Repl(G(s, m, 5), BSLClose, <<"]">>)>> ELSE <<>>)

K_slashes == C("://")
K_ilto == C("ilto:")
K_dblOpen == C("[[")
K_or == C("or:")
StepMacros(s, env) ==
  LET sq == HasC(s, "[")
      co == HasC(s, ":")
      mac == sq /\ co
      a1 == IF mac /\ (HasW(s, K_imageColon) \/ HasW(s, K_iconColon))
            THEN ReplaceAllM(RxImage, s, LAMBDA d, m: d \o ImageOut(s, m, env)) ELSE s
      a2 == IF co /\ HasW(s, K_slashes)
            THEN ReplaceAllM(RxLink, a1, LAMBDA d, m: d \o LinkOut(a1, m, env)) ELSE a1
      a3 == IF mac /\ (HasW(s, K_linkColon) \/ HasW(s, K_ilto))
            THEN ReplaceAllM(RxLinkMacro, a2, LAMBDA d, m: d \o LinkMacroOut(a2, m, env)) ELSE a2
      a4 == IF HasC(s, "@")
            THEN ReplaceMs(FindAllIn(RxEmail, a3, 1, EmailStarts(a3)), a3, LAMBDA d, m: d \o EmailOut(a3, m, env)) ELSE a3
      a5 == IF (sq /\ HasW(s, K_dblOpen)) \/ (mac /\ HasW(s, K_or))
            THEN ReplaceAllM(RxAnchor, a4, LAMBDA d, m: d \o AnchorOut(a4, m, env)) ELSE a4
  IN a5

(***************************************************************************)
(* Step: post replacements (hard line breaks)                              *)
(***************************************************************************)
K_hardbreaks == C("hardbreaks")
SpPlus == <<SP, "+">>
RxHardBreak == Compile(Cat(<<BolM, Cap(1, Star(Dot)), Lit(" +"), EolM>>), 1)
\* al: <<>> or <<block attribute list>>
StepPost(s, env, al) ==
  IF IsSet(env.attrs, HardbreaksOption) \/ (al # <<>> /\ AlHasOpt(al[1], K_hardbreaks))
  THEN IF ~HasC(s, NL) THEN s
       ELSE LET l == LinesOf(s)
                n == Len(l)
                one(x) == (IF EndsW(x, SpPlus) THEN Upto(x, Len(x) - 2) ELSE x) \o RBreak(env)
            IN IF n = 0 THEN <<>>
               ELSE Join([i \in 1..n |-> IF i < n THEN one(l[i]) ELSE l[i]] \o <<>>, <<NL>>)
  ELSE IF HasC(s, "+") /\ HasC(s, NL)
  THEN ReplaceAllM(RxHardBreak, s, LAMBDA d, m: d \o G(s, m, 1) \o RBreak(env))
  ELSE s

(***************************************************************************)
(* Substitution groups                                                     *)
(***************************************************************************)
NormalSteps == <<"spec", "quotes", "attrs", "repl", "macros", "post">>
Grp(g) == [g |-> g, steps |-> <<>>]
Custom(steps) == [g |-> "custom", steps |-> steps]
StepsOf(grp) ==
  CASE grp.g \in {"normal", "title"}    -> NormalSteps
    [] grp.g \in {"header", "attrval"}  -> <<"spec", "attrs">>
    [] grp.g = "verbatim"               -> <<"spec">>
    [] grp.g \in {"pass", "none"}       -> <<>>
    [] OTHER                            -> grp.steps

StepNames ==
  (C("c") :> "spec") @@ (C("specialcharacters") :> "spec") @@ (C("specialchars") :> "spec") @@
  (C("q") :> "quotes") @@ (C("quotes") :> "quotes") @@
  (C("a") :> "attrs") @@ (C("attributes") :> "attrs") @@
  (C("r") :> "repl") @@ (C("replacements") :> "repl") @@
  (C("m") :> "macros") @@ (C("macros") :> "macros") @@
  (C("p") :> "post") @@ (C("post_replacements") :> "post")
StepDom == DOMAIN StepNames
NormalNames == {C("n"), C("normal")}
VerbatimNames == {C("v"), C("verbatim")}
K_none == C("none")

\* Parse a subs value; base: <<>> or <<group the value amends>>.  Result <<>> if malformed.
RECURSIVE SubsFold(_, _, _, _)
SubsFold(items, k, steps, base) ==
  IF k > Len(items) THEN <<Custom(steps)>>
  ELSE LET it == TrimBoth(items[k], SpaceCh)
           app == StartsC(it, "+")
           it1 == IF app THEN From(it, 2) ELSE it
           pre == ~app /\ EndsC(it1, "+")
           it2 == IF pre THEN Upto(it1, Len(it1) - 1) ELSE it1
           del == ~app /\ ~pre /\ StartsC(it2, "-")
           it3 == IF del THEN From(it2, 2) ELSE it2
           st0 == IF k = 1 /\ base # <<>> /\ (app \/ pre \/ del) THEN StepsOf(base[1]) ELSE steps
       IN IF it \in NormalNames THEN SubsFold(items, k + 1, NormalSteps, base)
          ELSE IF it \in VerbatimNames THEN SubsFold(items, k + 1, <<"spec">>, base)
          ELSE IF it3 \notin StepDom THEN <<>>
          ELSE LET x == StepNames[it3]
               IN SubsFold(items, k + 1,
                    IF pre THEN <<x>> \o st0
                    ELSE IF del THEN SelectSeq(st0, LAMBDA y: y # x)
                    ELSE Append(st0, x), base)
ParseSubs(txt, base) ==
  LET t == TrimBoth(txt, SpaceCh)
  IN IF t = K_none THEN <<Grp("none")>>
     ELSE IF t \in NormalNames THEN <<Grp("normal")>>
     ELSE IF t \in VerbatimNames THEN <<Grp("verbatim")>>
     ELSE SubsFold(Split(t, ","), 1, <<>>, base)

K_pass == C("pass")
K_subs == C("subs")
\* The group a block with default group grp and attribute list al (<<>> or <<al>>) uses.
OverrideGroup(grp, al) ==
  IF al = <<>> THEN grp
  ELSE LET g1 == IF AlStyle(al[1]) = <<K_pass>> THEN Grp("none") ELSE grp
           sv == ValOf(Named(al[1], K_subs))
           p == IF sv = <<>> THEN <<>> ELSE ParseSubs(sv[1], <<grp>>)
       IN IF p # <<>> THEN p[1] ELSE g1

(***************************************************************************)
(* Passthroughs                                                            *)
(***************************************************************************)
Pass(text, subs, type, al) == [text |-> text, subs |-> subs, type |-> type, al |-> al]
Span3(d, a) == Cat(<<Cap(a, Lit(d)), Cap(a + 1, StarLazy(AnyCh)), Cap(a + 2, Lit(d))>>)
RxPassMacro == Compile(Alt(<<
  Cat(<<Opt(Cat(<<Cap(1, Opt(Ch(BSL))), Ch("["), Cap(2, Plus(NotIn({"[", "]"}))), Ch("]")>>)),
        Cap(3, UptoN(Ch(BSL), 2)),
        Alt(<<Span3("+++", 4), Span3("++", 7), Span3("$$", 10)>>)>>),
  Cat(<<Cap(13, Esc), Lit("pass:"),
        Opt(Cap(14, Cat(<<Plus(In(LowerAZ)), Star(Cat(<<Ch(","), Plus(In(LowerAZ \cup {"-"}))>>))>>))),
        Ch("["), Cap(15, BracketText), Ch("]")>>)
  >>), 15)
RxPass == Compile(Cat(<<StartHalf, Alt(<<
  Cat(<<Ch("["), Cap(1, Alt(<<Lit("x-"), Cat(<<Plus(NotIn({"[", "]"})), Lit(" x-")>>)>>)), Ch("]"),
        Ch(BT), Cap(2, Cat(<<NonSpace, OptLazy(Cat(<<StarLazy(AnyCh), NonSpace>>))>>)), Ch(BT)>>),
  Cat(<<Ch("["), Cap(3, Plus(NotIn({"[", "]"}))), Ch("]"), Cap(4, UptoN(Ch(BSL), 2)),
        Ch("+"), Cap(5, Cat(<<NonSpace, OptLazy(Cat(<<StarLazy(AnyCh), NonSpace>>))>>)), Ch("+")>>),
  Cat(<<Opt(Cap(6, Ch(BSL))),
        Ch("+"), Cap(7, Cat(<<NonSpace, OptLazy(Cat(<<StarLazy(AnyCh), NonSpace>>))>>)), Ch("+")>>)
  >>), EndHalf>>), 7)

Placeholder(n) == <<PassOpen>> \o NumText(n) \o <<PassClose>>
PushPass(acc, p) == [d |-> acc.d \o Placeholder(Len(acc.ps)), ps |-> Append(acc.ps, p)]
PutText(acc, t) == [acc EXCEPT !.d = @ \o t]
K_xdash == C("x-")
K_sxdash == C(" x-")
K_passColon == C("pass:")

\* one match of the formal macros and the doubled/tripled delimiters
PassMacroOut(s, m, acc) ==
  LET q == IF HasG(m, 4) THEN 5 ELSE IF HasG(m, 7) THEN 8 ELSE 11
      bound == G(s, m, q - 1)
      body == G(s, m, q)
      esc == GLen(m, 3)
      hasAl == HasG(m, 2)
      al == G(s, m, 2)
      brack == <<"[">> \o al \o <<"]">>
      slashes == Rep(<<BSL>>, esc - 1)
      plainSubs == IF bound = C("+++") THEN Grp("none") ELSE Grp("verbatim")
      isDbl == bound = C("++")
      pm == GOr(s, m, 14, <<>>)
      ps == IF HasG(m, 14) THEN ParseSubs(pm, <<>>) ELSE <<>>
      txt == Repl(G(s, m, 15), BSLClose, <<"]">>)
  IN IF HasG(m, 4) \/ HasG(m, 7) \/ HasG(m, 10)
     THEN IF hasAl /\ esc > 0
          THEN PutText(acc, G(s, m, 1) \o brack \o slashes \o bound \o body \o bound)
          ELSE IF ~hasAl /\ esc > 0 THEN PutText(acc, slashes \o bound \o body \o bound)
          ELSE IF ~hasAl THEN PushPass(acc, Pass(body, plainSubs, "", <<>>))
          ELSE IF GLen(m, 1) > 0
          THEN PushPass(PutText(acc, brack), Pass(body, plainSubs, "", <<>>))
          ELSE IF isDbl /\ al = K_xdash
          THEN PushPass(acc, Pass(body, Grp("normal"), "mono", <<<<>>>>))
          ELSE IF isDbl /\ EndsW(al, K_sxdash)
          THEN PushPass(acc, Pass(body, Grp("normal"), "mono", <<Upto(al, Len(al) - 3)>>))
          ELSE PushPass(acc, Pass(body, plainSubs, "unq", <<al>>))
     ELSE IF GLen(m, 13) > 0
     THEN PutText(acc, K_passColon \o pm \o <<"[">> \o G(s, m, 15) \o <<"]">>)
     ELSE PushPass(acc, Pass(txt, IF ps = <<>> THEN Grp("none") ELSE ps[1], "", <<>>))

ExtractMacros(s) ==
  LET ms == FindAll(RxPassMacro, s)
      one(a, m) == [r |-> PassMacroOut(s, m, PutText(a.r, Sub(s, a.p, m[1][1]))), p |-> m[1][2]]
      r == FoldLeft(one, [r |-> [d |-> <<>>, ps |-> <<>>], p |-> 1], ms)
  IN PutText(r.r, From(s, r.p))

RECURSIVE ExtractPlus(_, _)
\* one match of `...` with x-, or +...+
PassPlusOut(s, m, acc) ==
  LET w == M0(s, m)
      old == EndsC(acc.d, BSL) \/ EndsC(acc.d, ":") \/ EndsC(acc.d, ";")
      esc == IF HasG(m, 4) THEN GLen(m, 4) ELSE IF HasG(m, 6) THEN GLen(m, 6) ELSE 0
      mark == IF HasG(m, 2) THEN BT ELSE "+"
      oal == IF HasG(m, 1) THEN <<G(s, m, 1)>> ELSE IF HasG(m, 3) THEN <<G(s, m, 3)>> ELSE <<>>
      isX == oal # <<>> /\ oal[1] = K_xdash
      endX == oal # <<>> /\ ~isX /\ EndsW(oal[1], K_sxdash)
      oldB == isX \/ endX
      al == IF oal = <<>> THEN <<>> ELSE IF isX THEN <<<<>>>>
            ELSE IF endX THEN <<Upto(oal[1], Len(oal[1]) - 3)>> ELSE oal
      body == IF HasG(m, 2) THEN G(s, m, 2) ELSE IF HasG(m, 5) THEN G(s, m, 5) ELSE G(s, m, 7)
      unescaped == Rep(<<BSL>>, esc - 1) \o <<mark>> \o body \o <<mark>>
  IN IF old
     THEN LET r == ExtractPlus(From(w, 2), acc.ps)
          IN [d |-> acc.d \o <<w[1]>> \o r.d, ps |-> r.ps]
     ELSE IF esc > 0
     THEN PutText(acc, (IF oal = <<>> THEN <<>> ELSE <<"[">> \o oal[1] \o <<"]">>) \o unescaped)
     ELSE PushPass(acc, Pass(body, IF oldB /\ mark # BT THEN Grp("normal") ELSE Grp("verbatim"),
                             IF al = <<>> THEN "" ELSE IF oldB THEN "mono" ELSE "unq", al))
ExtractPlus(s, ps) ==
  LET ms == FindAll(RxPass, s)
      one(a, m) == [r |-> PassPlusOut(s, m, PutText(a.r, Sub(s, a.p, m[1][1]))), p |-> m[1][2]]
      r == FoldLeft(one, [r |-> [d |-> <<>>, ps |-> ps], p |-> 1], ms)
  IN PutText(r.r, From(s, r.p))

K_pp == C("++")
K_dd == C("$$")
K_ss == C("ss:")
K_mb == C("-]")
\* [d |-> text with placeholders, ps |-> the passthroughs]
Extract(s) ==
  LET e1 == IF HasW(s, K_pp) \/ HasW(s, K_dd) \/ HasW(s, K_ss)
            THEN ExtractMacros(s) ELSE [d |-> s, ps |-> <<>>]
  IN IF HasC(e1.d, "+") \/ HasW(e1.d, K_mb) THEN ExtractPlus(e1.d, e1.ps) ELSE e1

RxPlaceholder == Compile(Cat(<<Ch(PassOpen), Cap(1, Plus(In(Nd))), Ch(PassClose)>>), 1)
DigitVal(c) == AsciiCode(c) - 48
IndexOfText(t) ==
  IF AllIn(t, Digits) /\ Len(t) <= 8 THEN FoldLeft(LAMBDA a, c: 10 * a + DigitVal(c), 0, t)
  ELSE IF AllIn(t, Digits) /\ AllIn(Upto(t, Len(t) - 8), {"0"})
  THEN FoldLeft(LAMBDA a, c: 10 * a + DigitVal(c), 0, From(t, Len(t) - 7))
  ELSE IF AllIn(t, Digits) /\ Len(t) <= 19 THEN 99999999 ELSE 0
K_unres == C("(INTERNAL ERROR: Unresolved passthrough index ")

RECURSIVE Restore(_, _, _, _)
\* Replace placeholders with index below `limit'.
Restore(s, ps, limit, env) ==
  ReplaceAllM(RxPlaceholder, s, LAMBDA d, m:
    LET n == IndexOfText(G(s, m, 1))
        p == ps[n + 1]
        t0 == ApplyGroup(p.text, p.subs, env, <<>>)
        al == IF p.al = <<>> THEN <<>> ELSE <<ParseAttrlist(p.al[1], env, "inline")>>
        t1 == IF p.type = "" THEN t0 ELSE RQuote(env, p.type, "u", al, t0)
    IN d \o (IF n >= limit \/ n >= Len(ps) THEN K_unres \o NumText(n) \o <<")">>
             ELSE IF HasC(t1, PassOpen) THEN Restore(t1, ps, n, env) ELSE t1))

ApplyStep(s, step, env, al) ==
  CASE step = "spec"   -> StepSpecial(s, env)
    [] step = "quotes" -> StepQuotes(s, env)
    [] step = "attrs"  -> SubAttrRefs(s, env.attrs)
    [] step = "repl"   -> StepReplacements(s, env)
    [] step = "macros" -> StepMacros(s, env)
    [] step = "post"   -> StepPost(s, env, al)

UsesPass(grp) == grp.g = "header" \/ "macros" \in ToSet(StepsOf(grp))
ApplyGroup(s, grp, env, al) ==
  LET e == IF UsesPass(grp) THEN Extract(s) ELSE [d |-> s, ps |-> <<>>]
      r == FoldLeft(LAMBDA t, st: ApplyStep(t, st, env, al), e.d, StepsOf(grp))
  IN IF e.ps = <<>> THEN r ELSE Restore(r, e.ps, Len(e.ps), env)
=============================================================================
