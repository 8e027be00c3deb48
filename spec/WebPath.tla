------------------------------ MODULE WebPath -------------------------------
(* Web path resolution (path_resolver.rs). *)
EXTENDS Regex

UriRest == Cat(<<In(Alphabetic), Plus(In(Alphabetic \cup NumberN \cup {".", "+", "-"})), Ch(":"),
                 Opt(Ch("/")), Opt(Ch("/"))>>)
RxUriPrefix == Compile(UriRest, 0)

\* length of a URI prefix such as https:// at the start of s, or 0
UriPrefixLen(s) ==
  IF ~HasC(s, ":") THEN 0
  ELSE LET m == MatchAt(RxUriPrefix, s, 1) IN IF m = <<>> THEN 0 ELSE m[1][2] - 1

IsWebRoot(s) == StartsC(s, "/")
DotSlash == C("./")
DotDot == C("..")

PushSegment(acc, seg, root) ==
  IF seg # DotDot THEN Append(acc, seg)
  ELSE IF acc = <<>> THEN (IF root # <<>> /\ root # DotSlash THEN acc ELSE <<seg>>)
  ELSE IF acc[Len(acc)] = DotDot THEN Append(acc, seg)
  ELSE SubSeq(acc, 1, Len(acc) - 1)

\* start: <<>> or <<text>>
WebPathOf(target, start) ==
  LET joined == IF start = <<>> \/ IsWebRoot(target) THEN target
                ELSE start[1] \o (IF EndsC(start[1], "/") THEN <<>> ELSE <<"/">>) \o target
      n == IF start = <<>> \/ IsWebRoot(target) THEN 0 ELSE UriPrefixLen(joined)
      prefix == Upto(joined, n)
      path == From(joined, n + 1)
      root == IF IsWebRoot(path) THEN <<"/">> ELSE IF StartsW(path, DotSlash) THEN DotSlash ELSE <<>>
      segs == SelectSeq(Split(From(path, Len(root) + 1), "/"), LAMBDA x: x # <<".">>)
      res == FoldLeft(LAMBDA a, x: PushSegment(a, x, root), <<>>, segs)
  IN prefix \o Repl(root \o Join(res, <<"/">>), <<SP>>, C("%20"))
=============================================================================
