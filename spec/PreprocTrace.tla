---------------------------- MODULE PreprocTrace -----------------------------
(***************************************************************************)
(* Expansions recorded from the real parser, checked against Preproc.      *)
(* Each case also carries obs: [text (the document's source), calls, smap  *)
(* (for each line of it: <<>> or << <<file>>, line >>)] and cmp.           *)
(***************************************************************************)
EXTENDS Preproc

Miss(field, x) == PrintT("MISMATCH " \o ToJson([id |-> K.id, field |-> field, want |-> x]))
Got == LET t == TextOf(K.obs.text) IN [k \in 1..NLines(t) |-> LineE(t, k)] \o <<>>
\* trailing white space of the text and of attribute entries is not kept
Same(k, n, g) == IF k = n \/ o[k].kind = "entry" THEN TrimEnd(o[k].txt, SpaceCh) = TrimEnd(g, SpaceCh)
                 ELSE TrimEnd(o[k].txt, {CR}) = TrimEnd(g, {CR})
CheckText ==
  LET g == Got
      n == Len(g)
  IN /\ \/ n <= Len(o) /\ \A k \in (n + 1)..Len(o): AllIn(o[k].txt, SpaceCh)
        \/ Miss("number of lines", [k \in 1..Len(o) |-> o[k].txt] \o <<>>)
     /\ \A k \in 1..Min2(n, Len(o)): Same(k, n, g[k]) \/ Miss("line", <<k, o[k].txt>>)
CheckMap ==
  \A k \in 1..Min2(Len(K.obs.smap), Len(o)):
    K.obs.smap[k] = << o[k].file, o[k].line >> \/ Miss("source map", <<k, o[k].file, o[k].line>>)
CheckCalls == K.obs.calls = calls \/ Miss("handler calls", calls)
CheckOne(what) == CASE what = "text" -> CheckText [] what = "map" -> CheckMap [] what = "calls" -> CheckCalls

Report ==
  /\ Expanded
  /\ (\A j \in 1..Len(K.cmp): CheckOne(K.cmp[j])) = TRUE
  /\ Begin(c + 1)

\* the variables of Doc are not used here
Idle == i = 1 /\ d = 1 /\ phase = "end" /\ tx = TextOf(<<>>) /\ ln = 1 /\ hd = <<>> /\ A = <<>> /\ cat = <<>>
        /\ num = <<>> /\ stack = <<>> /\ warns = <<>> /\ cov = <<>> /\ last = ""
PNext == (Read \/ EndFile \/ Report) /\ UNCHANGED vars
PSpec == (PInit /\ Idle) /\ [][PNext]_<<pvars, vars>>
=============================================================================
