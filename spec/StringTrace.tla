---------------------------- MODULE StringTrace -----------------------------
(***************************************************************************)
(* String values: whatever the storage, a value is the characters it was   *)
(* built from.  A case is a text, another text, and a history of           *)
(* operations with what the real types showed after each.                  *)
(***************************************************************************)
EXTENDS Text

Cases == ndJsonDeserialize(IOEnv.CASES)
InlineCapacity == 22          \* bytes: three words less two (64-bit)

VARIABLES i, k, cur           \* cur: <<text>>, or <<>> where no value could be built
vars == <<i, k, cur>>
Case == Cases[i]
Miss(field, w) == PrintT("MISMATCH " \o ToJson([id |-> Case.id, step |-> k, field |-> field, want |-> w]))

Fits(t) == ByteLen(t) <= InlineCapacity
Made(how, t) ==
  CASE how = "inline" -> IF Fits(t) THEN <<t>> ELSE <<>>
    [] how \in {"char", "cowchar"} -> IF t = <<>> THEN <<>> ELSE << <<t[1]>> >>
    [] OTHER -> <<t>>
MustEqual(how) == LET o == Made(how, Case.other)
                  IN IF cur = <<>> \/ o = <<>> THEN <<>>
                     ELSE IF cur[1] = o[1] THEN <<TRUE, TRUE, TRUE>> ELSE <<FALSE, FALSE, FALSE>>
View == IF cur' = <<>> THEN <<>>
        ELSE <<[texts |-> <<cur'[1]>>, len |-> ByteLen(cur'[1]), hashok |-> TRUE, debugok |-> TRUE]>>

Init == i = 1 /\ k = 1 /\ cur = <<>>
Op == Case.ops[k]
Obs == Case.steps[k]
Active == i <= Len(Cases) /\ k <= Len(Case.ops)
Make == Active /\ Op.op = "make" /\ cur' = Made(Op.how, Case.text)
\* conversions, clones and comparisons keep the value
Keep == Active /\ Op.op # "make" /\ cur' = cur
Do ==
  /\ Make \/ Keep
  /\ (Obs.v = View \/ Miss("value", View)) = TRUE
  /\ (Op.op # "eq" \/ Obs.eq = MustEqual(Op.how) \/ Miss("equality", MustEqual(Op.how))) = TRUE
  /\ k' = k + 1 /\ i' = i
NextCase ==
  /\ i <= Len(Cases) /\ k > Len(Case.ops)
  /\ (Case.inline = Fits(Case.text) \/ Miss("inline capacity", Fits(Case.text))) = TRUE
  /\ i' = i + 1 /\ k' = 1 /\ cur' = <<>>
Next == Do \/ NextCase
Spec == Init /\ [][Next]_vars

\* a value is one of the texts it was made from, and only "make" changes it
FromText == cur # <<>> => cur[1] = Case.text \/ (Case.text # <<>> /\ cur[1] = <<Case.text[1]>>)
OnlyMake == [][(cur' # cur /\ i' = i) => Op.op = "make"]_vars
=============================================================================
