------------------------------ MODULE Preproc -------------------------------
(***************************************************************************)
(* The preprocessor: include directives are replaced by the lines of the   *)
(* file that the handler returns, every other line is kept, and every      *)
(* line of the result remembers the file and line it came from.            *)
(*                                                                         *)
(* A stack of open files; one action reads one line (or one attribute      *)
(* entry with its continuations) of the innermost file.                    *)
(*                                                                         *)
(* A case is [id, src, primary (<<name>> or <<>>), handler (BOOLEAN),      *)
(* files (sequence of [n |-> name, s |-> text]), attrs, rend].             *)
(***************************************************************************)
EXTENDS Doc

VARIABLES o,       \* expanded lines: [txt, file, line, kind]
          fs,      \* open files: [name (optional), t (text), k (next line), dir (directive that opened it)]
          inhdr,   \* still in the document header
          mayset,  \* an attribute entry may stand here
          calls,   \* requests made to the handler: [from, target, attrs]
          V,       \* document attributes as the preprocessor sees them
          c, act   \* the case and the last action
pvars == <<o, fs, inhdr, mayset, calls, V, c, act>>

MaxDepth == 64
K == Cases[c]
TopF == fs[Len(fs)]
HasPrefix(l, w) == Len(l) >= Len(w) /\ SubSeq(l, 1, Len(w)) = w
IncludeMark == C("include::")
\* <<[target, al]>> of an include line (al: <<>> or <<text>>), or <<>>
IncludeOf(l) ==
  LET b == IndexC(l, "[", 10)
      ok == /\ HasPrefix(l, IncludeMark) /\ EndsC(l, "]")
            /\ b > 10 /\ b < Len(l) /\ (b + 1 = Len(l) \/ l[b + 1] # "]")
            /\ l[10] \notin SpaceCh /\ l[b - 1] \notin SpaceCh
      a == SubSeq(l, b + 1, Len(l) - 1)
  IN IF ~ok THEN <<>> ELSE <<[target |-> SubSeq(l, 10, b - 1), al |-> IF a = <<>> THEN <<>> ELSE <<a>>]>>

PEnv == [attrs |-> V, rend |-> K.rend]
FileText(n) == LET x == SelectInSeq(K.files, LAMBDA f: f.n = n)
               IN IF x = 0 \/ ~K.handler THEN <<>> ELSE <<K.files[x].s>>
OpenDirs == {fs[j].dir : j \in 2..Len(fs)}
RootFile == C("(root file)")
Unresolved(name, l) ==
  C("Unresolved directive in ") \o (IF name = <<>> THEN RootFile ELSE name[1]) \o C(" - ") \o l

Advance(s, k) == [s EXCEPT ![Len(s)].k = k]
LineOut(txt, k, kind) == [txt |-> txt, file |-> TopF.name, line |-> k, kind |-> kind]

Begin(ci) ==
  IF ci > NCases
  THEN /\ c' = ci /\ act' = "end" /\ fs' = <<>> /\ o' = <<>> /\ inhdr' = TRUE /\ mayset' = TRUE
       /\ calls' = <<>> /\ V' = <<>>
  ELSE /\ c' = ci /\ act' = "begin" /\ o' = <<>> /\ inhdr' = TRUE /\ mayset' = TRUE /\ calls' = <<>>
       /\ fs' = <<[name |-> Cases[ci].primary, t |-> TextOf(Cases[ci].src), k |-> 1, dir |-> <<>>]>>
       /\ V' = AttrsOf(Cases[ci])
PInit ==
  /\ c = 1 /\ act = "begin" /\ o = <<>> /\ inhdr = TRUE /\ mayset = TRUE /\ calls = <<>>
  /\ fs = <<[name |-> Cases[1].primary, t |-> TextOf(Cases[1].src), k |-> 1, dir |-> <<>>]>>
  /\ V = AttrsOf(Cases[1])

AtLine == c <= NCases /\ TopF.k <= NLines(TopF.t)
PEntry ==
  IF AtLine /\ mayset /\ LooksLikeEntry(LineE(TopF.t, TopF.k))
  THEN ParseEntry(TopF.t, TopF.k, NLines(TopF.t) + 1, PEnv) ELSE <<>>
PInclude == IF AtLine THEN IncludeOf(LineE(TopF.t, TopF.k)) ELSE <<>>

\* An attribute entry: kept, and its effect seen by the includes that follow.
ReadEntry(e) ==
  LET n == Remap(e.nm)
      t == TopF.t
      k == TopF.k
  IN /\ o' = o \o ([j \in 1..(e.next - k) |-> LineOut(LineE(t, k + j - 1), k + j - 1, "entry")] \o <<>>)
     /\ V' = IF inhdr THEN (IF HeaderMaySet(V, n) THEN HeaderSet(V, n, e.val) ELSE V)
             ELSE (IF BodyMaySet(V, n) THEN BodySet(V, n, e.val) ELSE V)
     /\ fs' = Advance(fs, e.next) /\ act' = "entry"
     /\ UNCHANGED <<inhdr, mayset, calls, c>>

\* An include directive: the handler is asked unless the directive is open already.
ReadInclude(x) ==
  \E target \in {SubAttrRefs(x.target, V)}:
  LET l == LineE(TopF.t, TopF.k)
      al == IF x.al = <<>> THEN <<>> ELSE ParseAttrlist(x.al[1], PEnv, "inline").attrs
      dir == [from |-> TopF.name, target |-> target, al |-> x.al]
      ask == Len(fs) - 1 < MaxDepth /\ dir \notin OpenDirs
      found == IF ask THEN FileText(target) ELSE <<>>
      s1 == Advance(fs, TopF.k + 1)
  IN /\ calls' = IF ask /\ K.handler
                 THEN Append(calls, [from |-> TopF.name, target |-> target,
                                     attrs |-> [j \in 1..Len(al) |-> [n |-> al[j].n, v |-> al[j].v]] \o <<>>])
                 ELSE calls
     /\ IF found # <<>>
        THEN /\ fs' = Append(s1, [name |-> <<target>>, t |-> TextOf(found[1]), k |-> 1, dir |-> dir])
             /\ o' = o /\ act' = "include"
        ELSE /\ fs' = s1 /\ o' = Append(o, LineOut(Unresolved(TopF.name, l), TopF.k, "unresolved"))
             /\ act' = "unresolved"
     /\ UNCHANGED <<inhdr, mayset, V, c>>

\* Any other line is kept as it is.
ReadLine ==
  LET blank == IsBlankLine(TopF.t, TopF.k)
  IN /\ o' = Append(o, LineOut(LineE(TopF.t, TopF.k), TopF.k, "kept"))
     /\ inhdr' = (inhdr /\ ~blank)
     /\ mayset' = IF blank THEN TRUE ELSE IF inhdr THEN mayset ELSE FALSE
     /\ fs' = Advance(fs, TopF.k + 1) /\ act' = "kept"
     /\ UNCHANGED <<calls, V, c>>

EndFile ==
  /\ c <= NCases /\ ~AtLine /\ Len(fs) > 1
  /\ fs' = SubSeq(fs, 1, Len(fs) - 1) /\ act' = "endfile"
  /\ UNCHANGED <<o, inhdr, mayset, calls, V, c>>

Read ==
  /\ AtLine
  /\ \E e \in {PEntry}:
     \E x \in {IF e = <<>> THEN PInclude ELSE <<>>}:
        CASE e # <<>> -> ReadEntry(e[1])
          [] e = <<>> /\ x # <<>> -> ReadInclude(x[1])
          [] OTHER -> ReadLine
Expanded == c <= NCases /\ ~AtLine /\ Len(fs) = 1

(***************************************************************************)
(* What the preprocessor guarantees                                        *)
(***************************************************************************)
\* every line of the result is a line of the file it is mapped to
TrueLine ==
  (o # <<>> /\ act \in {"kept", "entry"}) =>
    LET x == o[Len(o)] IN x.file = TopF.name /\ x.txt = LineE(TopF.t, x.line) /\ x.line = TopF.k - 1
\* lines are only added
OnlyAppends == [][c' = c => Len(o') >= Len(o) /\ SubSeq(o', 1, Len(o)) = o]_pvars
\* a directive is never open twice, and the depth is bounded: expansion ends
NoCycle == Cardinality(OpenDirs) = Len(fs) - 1 \/ c > NCases
Bounded == Len(fs) <= MaxDepth + 1
\* each step consumes a line or closes a file
Consumes ==
  [][c' = c => \/ act' = "endfile"
               \/ act' = "include" /\ Len(fs') = Len(fs) + 1 /\ fs'[Len(fs)].k > TopF.k
               \/ Len(fs') = Len(fs) /\ fs'[Len(fs)].k > TopF.k]_pvars
\* only attribute entries change attributes; the header ends once
OnlyEntriesSet == [][c' = c /\ V' # V => act' = "entry"]_pvars
HeaderEndsOnce == [][c' = c /\ inhdr' => inhdr]_pvars
=============================================================================
