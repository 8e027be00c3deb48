------------------------------ MODULE SpanTrace -----------------------------
(***************************************************************************)
(* Spans reported by the real parser ([off, line, col, txt] each) against  *)
(* the cursor of Location: a span must start at a place the cursor visits, *)
(* carry that place's line and column, and hold the text that stands there.*)
(***************************************************************************)
EXTENDS Location

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, cur, seen
vars == <<i, cur, seen>>

Case == Cases[i]
Init == i = 1 /\ cur = Start /\ seen = 0

Here == IF ToString(cur.off) \in DOMAIN Case.spans THEN Case.spans[ToString(cur.off)] ELSE <<>>
Miss(field, s, w) ==
  PrintT("MISMATCH " \o ToJson([id |-> Case.id, field |-> field, span |-> s, want |-> w]))
CheckSpan(s) ==
  /\ (s.line = cur.line /\ s.col = cur.col) \/ Miss("line or column", s, <<cur.line, cur.col>>)
  /\ AtW(Case.src, cur.p, s.txt)
     \/ Miss("text of a span", s, Sub(Case.src, cur.p, Min2(cur.p + Len(s.txt), Len(Case.src) + 1)))
CheckHere == (\A k \in 1..Len(Here): CheckSpan(Here[k])) = TRUE

Move ==
  /\ i <= Len(Cases) /\ cur.p <= Len(Case.src)
  /\ CheckHere
  /\ cur' = After(cur, Case.src[cur.p]) /\ seen' = seen + Len(Here) /\ i' = i
Finish ==
  /\ i <= Len(Cases) /\ cur.p = Len(Case.src) + 1
  /\ CheckHere
  /\ (seen + Len(Here) = Case.n
      \/ Miss("spans that start outside the text or inside a character", Case.n, seen + Len(Here))) = TRUE
  /\ i' = i + 1 /\ cur' = Start /\ seen' = 0
Next == Move \/ Finish
Spec == Init /\ [][Next]_vars

\* what the cursor itself guarantees
OffsetsGrow == [][i' = i => cur'.off > cur.off /\ cur'.p = cur.p + 1]_vars
ColumnsFit == cur.col >= 1 /\ cur.line >= 1 /\ cur.col <= cur.p /\ cur.line <= cur.p /\ cur.off >= cur.p - 1
LineStart ==
  i <= Len(Cases) => (cur.col = 1 <=> (cur.p = 1 \/ Case.src[cur.p - 1] = NL))
=============================================================================
