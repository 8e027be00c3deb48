------------------------------- MODULE Author -------------------------------
(***************************************************************************)
(* Author lines and revision lines of a document header.                   *)
(***************************************************************************)
EXTENDS Inline

NameFirst == AsciiAlnum \cup {"_"} \cup LetterL \cup NumberN \cup {"&", "#", ";"}
NameRest  == NameFirst \cup {"-", SQ, "."}
Unscore(t) == [i \in 1..Len(t) |-> IF t[i] = "_" THEN SP ELSE t[i]] \o <<>>

\* A name of the author pattern starting at i: its end, or 0.
NameEnd(t, i) == IF i > Len(t) \/ t[i] \notin NameFirst THEN 0 ELSE SkipIn(t, NameRest, i + 1)
\* A run of at least one space at i followed by something: where it starts, or 0.
GapEnd(t, i) == IF i <= Len(t) /\ t[i] = SP THEN SkipIn(t, {SP}, i) ELSE 0
\* An e-mail part `<...>' from i to the end of the text: its inside, or none.
MailAt(t, i) ==
  IF i <= Len(t) /\ t[i] = "<" /\ t[Len(t)] = ">" /\ IndexC(t, ">", i) = Len(t) /\ Len(t) > i + 1
  THEN <<Sub(t, i + 1, Len(t))>> ELSE <<>>

\* The parts <<first, middle?, last?, email?>> of a text in the documented
\* author form, or <<>>.  (Names hold no blanks, so this is unambiguous.)
RECURSIVE AuthorRest(_, _, _, _)
AuthorRest(t, i, names, max) ==
  IF i > Len(t) THEN [ok |-> TRUE, names |-> names, mail |-> <<>>]
  ELSE LET g == GapEnd(t, i)
           m == IF g = 0 THEN <<>> ELSE MailAt(t, g)
           e == IF g = 0 THEN 0 ELSE NameEnd(t, g)
       IN IF m # <<>> THEN [ok |-> TRUE, names |-> names, mail |-> m]
          ELSE IF e > 0 /\ Len(names) < max
               THEN AuthorRest(t, e, Append(names, Sub(t, g, e)), max)
          ELSE [ok |-> FALSE, names |-> <<>>, mail |-> <<>>]
AuthorParts(t) ==
  LET e == NameEnd(t, 1)
  IN IF e = 0 THEN [ok |-> FALSE, names |-> <<>>, mail |-> <<>>]
     ELSE AuthorRest(t, e, <<Sub(t, 1, e)>>, 3)

SingleRef(t) ==
  LET s == TrimBoth(t, SpaceCh)
  IN StartsC(s, "{") /\ EndsC(s, "}") /\ CountC(s, "{") = 1
AuthorSubs(t, env) ==
  LET r == SubAttrRefs(t, env.attrs)
      angle == HasC(r, "<") /\ HasC(r, ">")
      amp == HasC(r, "&") /\ ~HasW(r, E_amp)
  IN IF ~SingleRef(t) /\ CountC(t, "{") > 1 /\ (angle \/ amp) THEN StepSpecial(r, env) ELSE r

PlainAuthor(n) == [name |-> n, first |-> n, middle |-> <<>>, last |-> <<>>, email |-> <<>>]
BeforeMail(t) == LET i == IndexC(t, "<", 1) IN TrimBoth(IF i = 0 THEN t ELSE Upto(t, i - 1), SpaceCh)
\* f: what happens to each part
Assemble(t, p, f(_)) ==
  LET n == p.names
      u(x) == Unscore(f(x))
  IN [name |-> Unscore(BeforeMail(t)), first |-> u(n[1]),
      middle |-> IF Len(n) = 3 THEN <<u(n[2])>> ELSE <<>>,
      last |-> IF Len(n) >= 2 THEN <<u(n[Len(n)])>> ELSE <<>>,
      email |-> IF p.mail = <<>> THEN <<>> ELSE <<f(p.mail[1])>>]
Escaped(t, env) == IF HasC(t, "<") /\ HasC(t, ">") THEN StepSpecial(t, env) ELSE t

\* One author: <<record>> or <<>> (blank).
ParseAuthor(raw, env) ==
  LET s == TrimBoth(raw, SpaceCh)
      p == AuthorParts(s)
      x == AuthorSubs(s, env)
      px == AuthorParts(x)
      subs(t) == AuthorSubs(t, env)
      asis(t) == t
  IN IF s = <<>> THEN <<>>
     ELSE IF SingleRef(s) THEN <<PlainAuthor(Unscore(AuthorSubs(s, env)))>>
     ELSE IF p.ok THEN <<Assemble(s, p, subs)>>
     ELSE IF HasC(s, "{")
          THEN IF px.ok THEN <<Assemble(x, px, asis)>>
               ELSE <<PlainAuthor(Unscore(Escaped(x, env)))>>
     ELSE <<PlainAuthor(Unscore(Escaped(s, env)))>>

First1(t) == IF t = <<>> THEN <<>> ELSE <<t[1]>>
Initials(a) == First1(a.first) \o (IF a.middle = <<>> THEN <<>> ELSE First1(a.middle[1]))
                               \o (IF a.last = <<>> THEN <<>> ELSE First1(a.last[1]))

N_author == C("author")
N_authorinitials == C("authorinitials")
N_firstname == C("firstname")
N_middlename == C("middlename")
N_lastname == C("lastname")
N_email == C("email")
N_revnumber == C("revnumber")
N_revdate == C("revdate")
N_revremark == C("revremark")
N_doctitle == C("doctitle")

\* An attribute the header defines by a value of its own (silently refused if locked).
SetByValue(A, n, v) == IF HeaderMaySet(A, n) THEN Put(A, n, ValueV(v), KeptCtx(A, n)) ELSE A
SetOpt(A, n, o) == IF o = <<>> THEN A ELSE SetByValue(A, n, o[1])
SetAll(A, l) == FoldLeft(LAMBDA a, x: SetOpt(a, x[1], x[2]), A, l)
\* the parts that also an `author' entry defines
PartsOf(a, name(_)) ==
  << <<name(N_firstname), <<a.first>> >>, <<name(N_middlename), a.middle>>,
     <<name(N_lastname), a.last>>, <<name(N_authorinitials), <<Initials(a)>> >>,
     <<name(N_email), a.email>> >>
AuthorEntryAttrs(A, a) == LET id(n) == n IN SetAll(A, PartsOf(a, id))
NthAuthorAttrs(A, a, k) ==
  LET nm(n) == IF k = 1 THEN n ELSE n \o <<"_">> \o NumText(k)
  IN SetAll(A, << <<nm(N_author), <<a.name>> >> >> \o PartsOf(a, nm))

SemiSpace == <<";", SP>>
RECURSIVE SplitW(_, _, _)
SplitW(t, w, from) ==
  LET i == FindW(t, w, from)
  IN IF i = 0 THEN <<From(t, from)>> ELSE <<Sub(t, from, i)>> \o SplitW(t, w, i + Len(w))
\* [authors, attrs]; every author of the line sees the attributes as they are before it
ParseAuthorLine(t, env) ==
  LET as == Concat([k \in 1..Len(SplitW(t, SemiSpace, 1)) |-> ParseAuthor(SplitW(t, SemiSpace, 1)[k], env)] \o <<>>)
      A == FoldLeft(LAMBDA a, k: NthAuthorAttrs(a, as[k], k), env.attrs, [k \in 1..Len(as) |-> k] \o <<>>)
  IN [authors |-> as, attrs |-> A]

\* Revision lines
DropNonDigits(t) == LET i == IndexIn(t, Digits, 1) IN IF i = 0 THEN <<>> ELSE From(t, i)
ParseRevision(t, env) ==
  LET c == IndexC(t, ":", 1)
      left == IF c = 0 THEN t ELSE Upto(t, c - 1)
      remark == IF c = 0 THEN <<>> ELSE <<TrimBoth(From(t, c + 1), SpaceCh)>>
      k == IndexC(left, ",", 1)
      tl == TrimBoth(left, SpaceCh)
      alone == Len(tl) >= 2 /\ tl[1] = "v" /\ tl[2] \in Nd
      number == IF k > 0 THEN <<DropNonDigits(TrimBoth(Upto(left, k - 1), SpaceCh))>>
                ELSE IF alone THEN <<DropNonDigits(tl)>> ELSE <<>>
      date == IF k > 0 THEN TrimBoth(From(left, k + 1), SpaceCh) ELSE IF alone THEN <<>> ELSE tl
      A == SetAll(env.attrs, << <<N_revnumber, number>>, <<N_revdate, <<date>> >>, <<N_revremark, remark>> >>)
      e2 == [env EXCEPT !.attrs = A]
      sub(x) == ApplyGroup(x, Grp("header"), e2, <<>>)
  IN [num |-> IF number = <<>> THEN <<>> ELSE <<sub(number[1])>>,
      date |-> sub(date),
      remark |-> IF remark = <<>> THEN <<>> ELSE <<sub(remark[1])>>,
      attrs |-> A]
=============================================================================
