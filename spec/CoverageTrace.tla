--------------------------- MODULE CoverageTrace ----------------------------
(* Scanning the test files of a workspace line by line, then reporting     *)
(* its pages line by line, against what the real tool printed.             *)
EXTENDS Coverage

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, f, k, scan, known, out, lines, act
vars == <<c, f, k, scan, known, out, lines, act>>
Case == Cases[c]
Miss(field, w) == PrintT("MISMATCH " \o ToJson([id |-> Case.id, field |-> field, want |-> w]))

Init == c = 1 /\ f = 1 /\ k = 1 /\ scan = ScanStart /\ known = <<>> /\ out = <<>> /\ lines = <<>> /\ act = "open"
OpenTest ==
  /\ act = "open" /\ c <= Len(Cases) /\ f <= Len(Case.tests)
  /\ lines' = LinesOf(Case.tests[f].text) /\ scan' = ScanStart /\ k' = 1 /\ act' = "scan"
  /\ UNCHANGED <<c, f, known, out>>
ScanOne ==
  /\ act = "scan" /\ k <= Len(lines) /\ ~scan.bad
  /\ scan' = ScanLine(scan, lines[k]) /\ k' = k + 1
  /\ UNCHANGED <<c, f, known, out, lines, act>>
CloseTest ==
  /\ act = "scan" /\ k > Len(lines) /\ ~scan.bad
  /\ known' = IF scan.page = None THEN known
              ELSE Append(known, [page |-> scan.page[1], cites |-> scan.cites])
  /\ f' = f + 1 /\ act' = "open"
  /\ UNCHANGED <<c, k, scan, out, lines>>
\* a file tracking two pages is refused
Refuse ==
  /\ act = "scan" /\ scan.bad
  /\ (Case.failed \/ Miss("a file that tracks two pages is refused", TRUE)) = TRUE
  /\ act' = "done" /\ UNCHANGED <<c, f, k, scan, known, out, lines>>
\* every page is reported once, in any order
Begin ==
  /\ act = "open" /\ c <= Len(Cases) /\ f > Len(Case.tests)
  /\ (~Case.failed \/ Miss("the report is made", TRUE)) = TRUE
  /\ (Case.failed \/ (LET w == {Case.pages[x].path: x \in DOMAIN Case.pages}
                          g == {Case.report[x].path: x \in DOMAIN Case.report}
                      IN w = g /\ Len(Case.report) = Len(Case.pages))
      \/ Miss("pages of the report", {Case.pages[x].path: x \in DOMAIN Case.pages})) = TRUE
  /\ act' = (IF Case.failed THEN "done" ELSE "page") /\ f' = 1
  /\ UNCHANGED <<c, k, scan, known, out, lines>>
\* where several tests track one page, the citations of one of them count
OpenPage ==
  /\ act = "page" /\ f <= Len(Case.pages)
  /\ LET cands == SelectSeq(known, LAMBDA x: x.page = Case.pages[f].path)
     IN scan' = [ScanStart EXCEPT !.cites = cands]
  /\ out' = [x \in 1..Max2(1, Len(scan'.cites)) |-> <<>>]
  /\ lines' = LinesOf(Case.pages[f].text) /\ k' = 1 /\ act' = "lines"
  /\ UNCHANGED <<c, f, known>>
CitesOf(x) == IF scan.cites = <<>> THEN <<>> ELSE scan.cites[x].cites
PageLine ==
  /\ act = "lines" /\ k <= Len(lines)
  /\ out' = [x \in DOMAIN out |-> out[x] \o ReportLine(lines[k], k, CitesOf(x))]
  /\ k' = k + 1 /\ UNCHANGED <<c, f, scan, known, lines, act>>
ClosePage ==
  /\ act = "lines" /\ k > Len(lines)
  /\ LET r == SelectSeq(Case.report, LAMBDA x: x.path = Case.pages[f].path)
     IN (r = <<>> \/ r[1].lines \in {out[x]: x \in DOMAIN out}
         \/ Miss("report of page " \o ToString(f), out)) = TRUE
  /\ f' = f + 1 /\ act' = "page" /\ UNCHANGED <<c, k, scan, known, out, lines>>
EndPages == /\ act = "page" /\ f > Len(Case.pages) /\ act' = "done"
            /\ UNCHANGED <<c, f, k, scan, known, out, lines>>
NextCase ==
  /\ act = "done" /\ c' = c + 1 /\ act' = "open" /\ f' = 1 /\ k' = 1
  /\ scan' = ScanStart /\ known' = <<>> /\ out' = <<>> /\ lines' = <<>>
Next == OpenTest \/ ScanOne \/ CloseTest \/ Refuse \/ Begin \/ OpenPage \/ PageLine \/ ClosePage
        \/ EndPages \/ NextCase
Spec == Init /\ [][Next]_vars

Done == SubSeq(lines, 1, k - 1)
\* a citation is a line of the test file, within a citing block
CitedLines == act = "scan" => \A x \in DOMAIN scan.cites: scan.cites[x].line \in ToSet(Done)
FewerCites == act = "scan" => Len(scan.cites) < Max2(1, k)
\* reported lines are in page order, at most once each, and not empty
InOrder == act = "lines" =>
  \A x \in DOMAIN out: \A y \in DOMAIN out[x]:
    /\ out[x][y][1] < k /\ lines[out[x][y][1]] # <<>>
    /\ y > 1 => out[x][y - 1][1] < out[x][y][1]
\* an uncovered line has no citation left; after it none is covered
NoneLeft == act = "lines" =>
  \A x \in DOMAIN out: \A y \in DOMAIN out[x]:
    IF out[x][y][2] = 0 THEN out[x][y][1] > Len(CitesOf(x))
    ELSE CitesOf(x)[out[x][y][1]] = [line |-> lines[out[x][y][1]], rule |-> TRUE]
\* every line that no citation is left for is uncovered
Complete == act = "lines" =>
  \A x \in DOMAIN out: \A y \in (Len(CitesOf(x)) + 1)..(k - 1):
    lines[y] # <<>> => \E z \in DOMAIN out[x]: out[x][z] = <<y, 0>>
\* without a test every line of a page that is not empty is uncovered
Untested == (act = "lines" /\ scan.cites = <<>>) =>
  Len(out[1]) = Len(SelectSeq(Done, LAMBDA l: l # <<>>))
=============================================================================
