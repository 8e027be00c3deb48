------------------------------ MODULE AsgTrace ------------------------------
(* Going through a document value by value, checking and completing it,    *)
(* against what the real validator said and left behind.  A case is a      *)
(* history: the documents go through one validator, one after another.     *)
EXTENDS Asg

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, d, tree, todo, ok, act
vars == <<c, d, tree, todo, ok, act>>
Case == Cases[c]
Doc == Case.docs[d]
Miss(field, w) == PrintT("MISMATCH " \o ToJson([id |-> Case.id, doc |-> d, field |-> field, want |-> w]))

Init == c = 1 /\ d = 1 /\ tree = EmptyObj /\ todo = <<>> /\ ok = TRUE /\ act = "open"
Open ==
  /\ act = "open" /\ c <= Len(Cases) /\ d <= Len(Case.docs)
  /\ tree' = Doc.given /\ todo' = <<[type |-> Node("document"), path |-> <<>>]>> /\ ok' = TRUE /\ act' = "check"
  /\ UNCHANGED <<c, d>>
Scalar(type) == type[1] \in {"str", "strnull", "int", "enum"}
Check ==
  /\ act = "check" /\ ok /\ todo # <<>>
  /\ LET t == Head(todo)
         v == At(tree, t.path)
         fits == Fits(t.type, v)
         w == Filled(t.type, v)
         m == MemberTypes(t.type, w)
         subs == [x \in DOMAIN m |-> [type |-> m[x], path |-> Append(t.path, x)]]
     IN IF ~fits THEN ok' = FALSE /\ UNCHANGED <<tree, todo>>
        ELSE /\ ok' = (\A x \in DOMAIN m: ~Scalar(m[x]) \/ Fits(m[x], w.v[x]))
             /\ tree' = Put(tree, t.path, w)
             /\ todo' = Tail(todo) \o SelectSeq(subs \o <<>>, LAMBDA s: ~Scalar(s.type))
  /\ UNCHANGED <<c, d, act>>
Accept ==
  /\ act = "check" /\ ok /\ todo = <<>>
  /\ (Doc.valid \/ Miss("accepted", TRUE)) = TRUE
  /\ (~Doc.valid \/ Same(Doc.result, tree) \/ Miss("completed document", tree)) = TRUE
  /\ (~Doc.valid \/ (Doc.again.valid /\ Same(Doc.again.result, Doc.result)) \/ Miss("validated again", tree)) = TRUE
  /\ act' = "next" /\ UNCHANGED <<c, d, tree, todo, ok>>
Reject ==
  /\ act = "check" /\ ~ok
  /\ (~Doc.valid \/ Miss("accepted", FALSE)) = TRUE
  /\ (Extends(Doc.result, Doc.given) \/ Miss("what is given is kept", Doc.given)) = TRUE
  /\ act' = "next" /\ UNCHANGED <<c, d, tree, todo, ok>>
NextDoc ==
  /\ act = "next"
  /\ act' = "open" /\ tree' = EmptyObj /\ todo' = <<>> /\ ok' = TRUE
  /\ IF d < Len(Case.docs) THEN d' = d + 1 /\ c' = c ELSE c' = c + 1 /\ d' = 1
Next == Open \/ Check \/ Accept \/ Reject \/ NextDoc
Spec == Init /\ [][Next]_vars

\* nothing that is given changes, only implied values are added
Kept == act = "check" => Extends(tree, Doc.given)
\* what was checked stays in order: the queue holds values of the document
Within == act = "check" => \A x \in DOMAIN todo: At(tree, todo[x].path).t \in {"null", "bool", "frac", "int", "str", "arr", "obj"}
\* an accepted document is complete: checking it again adds nothing
RECURSIVE Complete(_, _)
Complete(type, v) == /\ Fits(type, v) /\ Filled(type, v) = v
                     /\ LET m == MemberTypes(type, v) IN \A x \in DOMAIN m: Complete(m[x], v.v[x])
Completed == (act = "check" /\ ok /\ todo = <<>>) => Complete(Node("document"), tree)
=============================================================================
