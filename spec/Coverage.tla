------------------------------ MODULE Coverage ------------------------------
(***************************************************************************)
(* The documentation coverage report.                                      *)
(*                                                                         *)
(* A test file names the one page it tracks (a line                        *)
(* `track_file!("PAGE");`) and cites the lines of this page in order, in   *)
(* `non_normative!(` and `verifies!(` blocks of raw strings.  The report   *)
(* goes through each page and its citations side by side: a line beyond    *)
(* the last citation is uncovered (0); a line that is cited word for word  *)
(* as normative is covered (1); any other line does not count.  Empty      *)
(* lines are not reported, but take up a citation.                         *)
(***************************************************************************)
EXTENDS Text

TrackOpen  == C("track_file!(") \o <<DQ>>
TrackClose == <<DQ>> \o C(");")
IsTrack(l) == StartsW(l, TrackOpen)
              /\ EndsW(From(l, Len(TrackOpen) + 1), TrackClose)
Tracked(l) == SubSeq(l, Len(TrackOpen) + 1, Len(l) - Len(TrackClose))
OpensText(l)  == HasW(l, C("non_normative!("))
OpensRule(l)  == HasW(l, C("verifies!("))
ClosesRaw(l)  == StartsW(l, <<DQ, "#">>)
OpensRaw(l)   == EndsW(l, C("r#") \o <<DQ>>) \/ EndsW(l, C("r##") \o <<DQ>>)

(* the state of a scan: [page, mode, cites, bad] *)
ScanStart == [page |-> None, mode |-> "code", cites |-> <<>>, bad |-> FALSE]
ScanLine(s, l) ==
  IF IsTrack(l) THEN IF s.page # None THEN [s EXCEPT !.bad = TRUE]
                     ELSE [s EXCEPT !.page = Some(Tracked(l))]
  ELSE IF OpensText(l) THEN [s EXCEPT !.mode = "text"]
  ELSE IF OpensRule(l) THEN [s EXCEPT !.mode = "rule"]
  ELSE IF ClosesRaw(l) THEN [s EXCEPT !.mode = "code"]
  ELSE IF OpensRaw(l) \/ s.mode = "code" THEN s
  ELSE [s EXCEPT !.cites = Append(@, [line |-> l, rule |-> s.mode = "rule"])]

(* what line k of the page reports, given the citations *)
ReportLine(l, k, cites) ==
  IF l = <<>> THEN <<>>
  ELSE IF k > Len(cites) THEN << <<k, 0>> >>
  ELSE IF cites[k].rule /\ cites[k].line = l THEN << <<k, 1>> >>
  ELSE <<>>
=============================================================================
