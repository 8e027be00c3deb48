---------------------------- MODULE WebPathTrace ----------------------------
(***************************************************************************)
(* Resolving a target against an optional start, one path segment per      *)
(* step, and the results the real resolver gave.                           *)
(***************************************************************************)
EXTENDS WebPath

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, phase, root, prefix, todo, done, acc
vars == <<i, phase, root, prefix, todo, done, acc>>
Case == Cases[i]

Posix(t) == IF Case.sep = BSL THEN [k \in 1..Len(t) |-> IF t[k] = BSL THEN "/" ELSE t[k]] \o <<>> ELSE t
Miss(field, w) == PrintT("MISMATCH " \o ToJson([id |-> Case.id, field |-> field, want |-> w]))

Init == i = 1 /\ phase = "start" /\ root = <<>> /\ prefix = <<>> /\ todo = <<>> /\ done = <<>> /\ acc = <<>>
Partition ==
  /\ i <= Len(Cases) /\ phase = "start"
  /\ LET target == Posix(Case.target)
         start == IF Case.start = <<>> THEN <<>> ELSE <<Posix(Case.start[1])>>
         joined == IF start = <<>> \/ IsWebRoot(target) THEN target
                   ELSE start[1] \o (IF EndsC(start[1], "/") THEN <<>> ELSE <<"/">>) \o target
         n == IF start = <<>> \/ IsWebRoot(target) THEN 0 ELSE UriPrefixLen(joined)
         path == From(joined, n + 1)
         rt == IF IsWebRoot(path) THEN <<"/">> ELSE IF StartsW(path, DotSlash) THEN DotSlash ELSE <<>>
     IN /\ prefix' = Upto(joined, n) /\ root' = rt
        /\ todo' = Split(From(path, Len(rt) + 1), "/")
  /\ done' = <<>> /\ acc' = <<>> /\ phase' = "walk" /\ i' = i
OneDot == <<".">>
Step ==
  /\ phase = "walk" /\ todo # <<>>
  /\ acc' = IF todo[1] = OneDot THEN acc ELSE PushSegment(acc, todo[1], root)
  /\ done' = Append(done, todo[1]) /\ todo' = Tail(todo)
  /\ UNCHANGED <<i, phase, root, prefix>>
Result == prefix \o Repl(root \o Join(acc, <<"/">>), <<SP>>, C("%20"))
Finish ==
  /\ phase = "walk" /\ todo = <<>>
  /\ (Result = Case.result \/ Miss("resolved path", Result)) = TRUE
  /\ (IsWebRoot(Result) = Case.root \/ Miss("is root", IsWebRoot(Result))) = TRUE
  /\ (Posix(Case.target) = Case.posix \/ Miss("separators", Posix(Case.target))) = TRUE
  /\ (LET w == WebPathOf(Posix(Case.result), <<>>) IN w = Case.again \/ Miss("path resolved twice", w)) = TRUE
  /\ i' = i + 1 /\ phase' = "start" /\ root' = <<>> /\ prefix' = <<>> /\ todo' = <<>> /\ done' = <<>> /\ acc' = <<>>
Next == Partition \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

\* below a root there are no parent references left
NeverAboveRoot == root = <<"/">> => \A k \in 1..Len(acc): acc[k] # DotDot
\* parent references stand first
DotsFirst == \A k \in 2..Len(acc): acc[k] = DotDot => acc[k - 1] = DotDot
\* what is left was there, in this order
RECURSIVE Subsequence(_, _)
Subsequence(a, b) ==
  IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1] = b[1] THEN Subsequence(Tail(a), Tail(b)) ELSE Subsequence(a, Tail(b))
InOrder == Subsequence(acc, done) /\ \A k \in 1..Len(acc): acc[k] # OneDot
\* a segment disappears only by a parent reference
Balance == LET n == Len(SelectSeq(done, LAMBDA x: x = DotDot))
               o == Len(SelectSeq(done, LAMBDA x: x # DotDot /\ x # OneDot))
           IN Len(SelectSeq(acc, LAMBDA x: x # DotDot)) >= o - n
\* resolving again changes nothing (a URI is not a path to be resolved)
Stable == (phase = "walk" /\ todo = <<>> /\ prefix = <<>>) => WebPathOf(Result, <<>>) = Result
=============================================================================
