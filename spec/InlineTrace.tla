----------------------------- MODULE InlineTrace -----------------------------
(***************************************************************************)
(* The substitution pipeline of one block as a state machine, checked      *)
(* against recorded renderings of the real parser.                         *)
(*                                                                         *)
(* A case is                                                               *)
(*   [id, s |-> source text, dflt |-> default group of the block's kind,   *)
(*    al |-> <<>> or <<text of the block's attribute list>>,               *)
(*    attrs |-> sequence of [n, k, v] (document attributes),               *)
(*    rend |-> "html" or "sym", out |-> <<>> or <<recorded rendering>>,    *)
(*    flags |-> properties of the generated input that the invariants use] *)
(***************************************************************************)
EXTENDS Inline

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES i,       \* the case being run
          stage,   \* "start", "steps", "restore", "done", "end"
          k,       \* index of the next substitution step
          txt,     \* the text so far
          ps,      \* extracted passthroughs
          grp,     \* the substitution group in use
          al,      \* <<>> or <<parsed block attribute list>>
          env
vars == <<i, stage, k, txt, ps, grp, al, env>>

AttrsOf(c) ==
  FoldLeft(LAMBDA A, a: Put(A, a.n, [k |-> a.k, v |-> a.v], a.ctx), BuiltInAttrs, c.attrs)
EnvOf(c) == [attrs |-> AttrsOf(c), rend |-> c.rend]

Start(j) ==
  IF j > N
  THEN [i |-> j, stage |-> "end", k |-> 0, txt |-> <<>>, ps |-> <<>>, grp |-> Grp("none"),
        al |-> <<>>, env |-> <<>>]
  ELSE LET c == Cases[j]
           e == EnvOf(c)
           a == IF c.al = <<>> THEN <<>> ELSE <<ParseAttrlist(c.al[1], e, "block")>>
       IN [i |-> j, stage |-> "start", k |-> 0, txt |-> c.s, ps |-> <<>>,
           grp |-> OverrideGroup([g |-> c.dflt.g, steps |-> c.dflt.steps], a), al |-> a, env |-> e]

Set(r) == /\ i' = r.i /\ stage' = r.stage /\ k' = r.k /\ txt' = r.txt /\ ps' = r.ps
          /\ grp' = r.grp /\ al' = r.al /\ env' = r.env

Init == \E r \in {Start(1)}:
           /\ i = r.i /\ stage = r.stage /\ k = r.k /\ txt = r.txt /\ ps = r.ps
           /\ grp = r.grp /\ al = r.al /\ env = r.env

\* Passthroughs are set aside before any other step.
DoExtract ==
  /\ stage = "start"
  /\ \E e \in {IF UsesPass(grp) THEN Extract(txt) ELSE [d |-> txt, ps |-> <<>>]}:
       txt' = e.d /\ ps' = e.ps
  /\ k' = 1
  /\ stage' = IF StepsOf(grp) = <<>> THEN "restore" ELSE "steps"
  /\ UNCHANGED <<i, grp, al, env>>

DoStep ==
  /\ stage = "steps"
  /\ txt' = ApplyStep(txt, StepsOf(grp)[k], env, al)
  /\ k' = k + 1
  /\ stage' = IF k = Len(StepsOf(grp)) THEN "restore" ELSE "steps"
  /\ UNCHANGED <<i, ps, grp, al, env>>

DoRestore ==
  /\ stage = "restore"
  /\ txt' = IF ps = <<>> THEN txt ELSE Restore(txt, ps, Len(ps), env)
  /\ stage' = "done"
  /\ UNCHANGED <<i, k, ps, grp, al, env>>

Str(t) == FoldLeft(LAMBDA a, c: a \o c, "", t)
\* A link with the nofollow option that opens in a new window carries both
\* keywords in rel. The real parser closes the attribute too early (known
\* finding, see H_relBoth): both renderings pass, the wrong one is reported.
BothRight(t) == Repl(t, H_relBoth, H_relRight)
\* The real parser's rendering must be the specified one.
Report ==
  /\ stage = "done"
  /\ LET c == Cases[i]
     IN IF c.out = <<txt>>
        THEN (c.dev /\ HasW(txt, H_relBoth)) => PrintT("DEVIATION " \o ToJson([id |-> c.id, name |-> "rel-nofollow-noopener"]))
        ELSE IF HasW(txt, H_relBoth) /\ c.out = <<BothRight(txt)>> THEN TRUE
        ELSE PrintT("MISMATCH " \o ToJson([id |-> c.id, field |-> "rendered", want |-> Str(txt)]))
  /\ \E r \in {Start(i + 1)}: Set(r)

(***************************************************************************)
(* Properties of the specified pipeline, checked on every behaviour.       *)
(***************************************************************************)
TypeOK ==
  /\ stage \in {"start", "steps", "restore", "done", "end"}
  /\ stage \in {"start", "steps"} => k <= Len(StepsOf(grp)) + 1
  /\ stage = "start" => ps = <<>>

\* (C14) once special characters were replaced, none of the source is left
NoSpecialAttr == \A a \in ToSet(Cases[i].attrs): ~HasIn(a.v, Specials)
EscapedOnce ==
  (stage = "done" /\ env.rend = "sym" /\ ps = <<>> /\ StepsOf(grp) # <<>> /\ StepsOf(grp)[1] = "spec"
   /\ "attrs" \notin ToSet(StepsOf(grp)) /\ "macros" \notin ToSet(StepsOf(grp)))
  => ~HasIn(txt, Specials)
EscapedAngles ==
  (stage = "done" /\ env.rend = "sym" /\ ps = <<>> /\ StepsOf(grp) # <<>> /\ StepsOf(grp)[1] = "spec"
   /\ al = <<>> /\ NoSpecialAttr)
  => ~HasIn(txt, {"<", ">"})

\* (C15) no placeholder is left over, and a verbatim passthrough is restored untouched
NoResidue == (stage = "done" /\ ~HasC(Cases[i].s, PassOpen)) => ~HasC(txt, PassOpen)
PassKept ==
  [][(stage = "restore" /\ stage' = "done")
     => \A j \in 1..Len(ps):
          (ps[j].subs.g = "none" /\ ps[j].type = "" /\ ~HasC(ps[j].text, PassOpen)
           /\ ps[j].text # <<>> /\ HasW(txt, Placeholder(j - 1))) => HasW(txt', ps[j].text)]_vars

\* (C16) formatting adds tokens and takes away marks; every other character stays
RECURSIVE Literal(_, _)
Literal(t, skip) ==             \* the text without the recording renderer's tokens
  IF t = <<>> THEN <<>>
  ELSE IF t[1] = TokOpen THEN Literal(Tail(t), 4)
  ELSE IF t[1] = TokClose THEN Literal(Tail(t), 0)
  ELSE IF t[1] = TokSep /\ skip > 0 THEN Literal(Tail(t), skip - 1)
  ELSE IF skip > 0 THEN Literal(Tail(t), skip)
  ELSE <<t[1]>> \o Literal(Tail(t), 0)
QuoteChars == QuoteMarks \cup {DQ, SQ}
QuotesKeepText ==
  [][(stage = "steps" /\ env.rend = "sym" /\ StepsOf(grp)[k] = "quotes"
      /\ ~HasIn(txt, {"[", BSL, TokOpen, TokClose, TokSep}) /\ i' = i)
     => SelectSeq(Literal(txt', 0), LAMBDA c: c \notin QuoteChars)
        = SelectSeq(txt, LAMBDA c: c \notin QuoteChars)]_vars

\* steps run in the documented order of their group, each once
StepOrder == [][stage = "steps" => (k' = k + 1 \/ stage' = "start")]_vars

Next == DoExtract \/ DoStep \/ DoRestore \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
