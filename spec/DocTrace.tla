------------------------------ MODULE DocTrace ------------------------------
(***************************************************************************)
(* Documents recorded from the real parser, checked against Doc.           *)
(*                                                                         *)
(* Each document of a case also carries obs, what the real parser reported *)
(* ([hdr, blocks, warn, refs, nrefs, vals], each possibly absent), and the *)
(* case names what is compared: cmp, and bf, the fields of a block.        *)
(***************************************************************************)
EXTENDS Doc

RECURSIVE Pick(_, _)
Pick(b, fs) ==
  [f \in fs |-> IF f = "kids" THEN [k \in 1..Len(b.kids) |-> Pick(b.kids[k], fs)] \o <<>> ELSE b[f]]

\* where two lists of blocks differ: a description
RECURSIVE DiffBlocks(_, _, _, _)
DiffBlocks(want, got, fs, path) ==
  IF Len(want) # Len(got)
  THEN [at |-> path, field |-> "blocks",
        want |-> [k \in 1..Len(want) |-> <<want[k].kind, want[k].span>>] \o <<>>]
  ELSE LET k == SelectInSeq([j \in 1..Len(want) |-> j] \o <<>>,
                            LAMBDA j: Pick(want[j], fs) # got[j])
           p == Append(path, k)
           f == SelectInSeq(Case.bf, LAMBDA x: Pick(want[k], fs)[x] # got[k][x])
           x == Case.bf[f]
       IN IF x = "kids" THEN DiffBlocks(want[k].kids, got[k].kids, fs, p)
          ELSE [at |-> p, field |-> x, want |-> want[k][x]]

Generated(b) == b.kind = "section" /\ b.id # <<>> /\ b.anchor = <<>> /\ (b.attrlist = <<>> \/ b.attrlist[1].id = <<>>)

Obs == Case.docs[d].obs
Blocks == stack[1].kids
Num(s, x) == Len(SelectSeq(s, LAMBDA y: y = x))
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a): Num(a, x) = Num(b, x)

RefOf(k) ==
  [key |-> k, has |-> HasId(cat, k),
   e |-> IF ~HasId(cat, k) THEN <<>>
         ELSE LET r == cat.ids[k]
              IN <<[id |-> k, reftext |-> r.reftext, type |-> r.type,
                    resolved |-> IF r.reftext = <<>> THEN <<>> ELSE <<cat.texts[r.reftext[1]]>>]>>,
   res |-> IF k \in DOMAIN cat.texts THEN <<cat.texts[k]>> ELSE <<>>]
ValOfName(n) == [n |-> n, val |-> AttrV(A, n), has |-> HasAttr(A, n), set |-> IsSet(A, n)]

Miss(field, x) == PrintT("MISMATCH " \o ToJson([id |-> Case.id, doc |-> d, field |-> field, want |-> x]))
\* A section's generated ID is its ID whichever way it is asked for; the real
\* parser's Block leaves it out (only its SectionBlock has it), which is a
\* known finding.
RECURSIVE Ids(_)
Ids(bs) == Concat([k \in 1..Len(bs) |->
  <<[id |-> bs[k].id, gen |-> Generated(bs[k])]>> \o Ids(bs[k].kids)] \o <<>>)
CheckIds ==
  LET w == Ids(Blocks)
      odd == {k \in 1..Len(w): w[k].id # Obs.eids[k]}
  IN IF Len(w) # Len(Obs.eids) \/ \E k \in odd: ~(w[k].gen /\ Obs.eids[k] = <<>>)
     THEN Miss("ID of a block", w)
     ELSE odd = {} \/ PrintT("DEVIATION " \o ToJson([id |-> Case.id, name |-> "block-generated-id", what |-> "Block::id of a section with a generated ID"]))

CheckOne(what) ==
  CASE what = "blocks" -> LET fs == ToSet(Case.bf)
                              w == [k \in 1..Len(Blocks) |-> Pick(Blocks[k], fs)] \o <<>>
                          IN w = Obs.blocks \/ LET x == DiffBlocks(Blocks, Obs.blocks, fs, <<>>)
                                               IN Miss("block " \o x.field, x)
    [] what = "hdr"  -> \A f \in DOMAIN Obs.hdr: hd[f] = Obs.hdr[f] \/ Miss("header " \o f, hd[f])
    [] what = "warn" -> LET w == IF Case.wf = <<>> THEN warns
                                 ELSE SelectSeq(warns, LAMBDA x: x.t \in ToSet(Case.wf))
                        IN SameBag(w, Obs.warn) \/ Miss("warnings", w)
    [] what = "refs" -> \A k \in 1..Len(Obs.refs):
                          RefOf(Obs.refs[k].key) = Obs.refs[k] \/ Miss("reference", RefOf(Obs.refs[k].key))
    [] what = "nrefs" -> LET n == Cardinality(DOMAIN cat.ids)
                             w == <<n, IF n = 0 THEN 1 ELSE 0>>
                         IN Obs.nrefs = w \/ Miss("number of references", w)
    [] what = "eids" -> CheckIds
    [] what = "vals" -> \A k \in 1..Len(Obs.vals):
                          ValOfName(Obs.vals[k].n) = Obs.vals[k] \/ Miss("attribute", ValOfName(Obs.vals[k].n))

Report ==
  /\ phase = "done"
  /\ (Obs.n = TrimTo(tx, 1, Len(tx.s) + 1) - 1 \/ Miss("document source", TrimTo(tx, 1, Len(tx.s) + 1) - 1)) = TRUE
  /\ (\A k \in 1..Len(Case.cmp): CheckOne(Case.cmp[k])) = TRUE
  /\ NextDoc

Next == Header \/ Body \/ Report
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the specification itself guarantees, checked on every behaviour.   *)
(***************************************************************************)
TypeOK ==
  /\ phase \in {"hdr", "body", "done", "end"}
  /\ ln >= 1 /\ ln <= NLines(tx) + 1
  /\ phase = "body" => Len(stack) >= 1 /\ stack[1].f = "doc"

\* (C01, C03) every line was consumed exactly once, in order
Tiles ==
  phase \in {"hdr", "body"} =>
    /\ (cov = <<>> => ln = 1)
    /\ (cov # <<>> => cov[1][1] = 1 /\ cov[Len(cov)][2] = ln)
    /\ \A k \in 1..(Len(cov) - 1): cov[k][2] = cov[k + 1][1]
\* (C03) only white space is ever dropped
BlankOnly ==
  phase = "done" =>
    \A k \in 1..Len(cov): cov[k][3] \in {"blank", "skipped"} =>
      \A j \in cov[k][1]..(cov[k][2] - 1): AllIn(LineE(tx, j), SpaceCh)
CoversAll == phase = "done" => (NLines(tx) = 0 \/ cov[Len(cov)][2] = End)

\* (C03) blocks are disjoint, in order and inside their parent
RECURSIVE Nested(_, _, _)
Nested(bs, from, to) ==
  /\ \A k \in 1..Len(bs): bs[k].span[1] >= from /\ bs[k].span[1] <= bs[k].span[2] /\ bs[k].span[2] <= to
  /\ \A k \in 1..(Len(bs) - 1): bs[k].span[2] <= bs[k + 1].span[1]
  /\ \A k \in 1..Len(bs): Nested(bs[k].kids, bs[k].span[1], bs[k].span[2])
BlocksNested == phase = "done" => Nested(Blocks, hd.span[2], Len(tx.s))

\* (C05) the open sections of one enclosing block have increasing levels
SectionFrames == {k \in 2..Len(stack): stack[k].f = "section" /\ ~stack[k].disc}
LevelsIncrease ==
  \A k \in SectionFrames: (k + 1) \in SectionFrames => stack[k].level < stack[k + 1].level
RECURSIVE SectionTree(_, _)
SectionTree(bs, lv) ==     \* subsections are deeper than their parent; discrete headings are empty
  \A k \in 1..Len(bs):
    LET b == bs[k] IN
    CASE b.kind = "section" /\ b.stype = "discrete" -> b.kids = <<>>
      [] b.kind = "section" -> b.level > lv /\ b.level \in 1..5 /\ SectionTree(b.kids, b.level)
      [] b.kind = "compound" -> SectionTree(b.kids, 0)
      [] b.kind = "preamble" -> \A j \in 1..Len(b.kids): b.kids[j].kind # "section"
      [] OTHER -> b.kids = <<>>
TreeOK == phase = "done" => SectionTree(Blocks, 0)
\* a section ends its parent's list of plain blocks only for sections: what
\* follows a subsection inside its parent is again a (sub)section
PreambleFirst == phase = "done" =>
  \A k \in 1..Len(Blocks): Blocks[k].kind = "preamble" => k = 1 /\ Len(Blocks) > 1 /\ Blocks[2].kind = "section"

\* (C06) numbers of sections outside compound blocks grow in document order
RECURSIVE Numbers(_)
Numbers(bs) ==
  Concat([k \in 1..Len(bs) |->
     (IF bs[k].num # <<>> THEN << <<bs[k].stype, bs[k].num[1].comp>> >> ELSE <<>>) \o Numbers(bs[k].kids)] \o <<>>)
LexLess(a, b) ==
  \/ \E k \in 1..Min2(Len(a), Len(b)): a[k] < b[k] /\ \A j \in 1..(k - 1): a[j] = b[j]
  \/ Len(a) < Len(b) /\ \A j \in 1..Len(a): a[j] = b[j]
NumbersGrow ==
  phase = "done" =>
    \A ty \in {"normal", "appendix"}:
      LET ns == SelectSeq(Numbers(Blocks), LAMBDA x: x[1] = ty)
      IN \A k \in 1..(Len(ns) - 1): LexLess(ns[k][2], ns[k + 1][2])
NumbersFitLevel ==
  phase = "done" => LET RECURSIVE ok(_)
                        ok(bs) == \A k \in 1..Len(bs):
                          (bs[k].num # <<>> => Len(bs[k].num[1].comp) = bs[k].level) /\ ok(bs[k].kids)
                    IN ok(Blocks)

\* (C07) an ID keeps its first meaning; a reference text too
CatGrows ==
  [][d' = d /\ i' = i =>
       /\ \A k \in DOMAIN cat.ids: k \in DOMAIN cat'.ids /\ cat'.ids[k] = cat.ids[k]
       /\ \A k \in DOMAIN cat.texts: k \in DOMAIN cat'.texts /\ cat'.texts[k] = cat.texts[k]]_vars
GeneratedUnique ==
  phase = "done" =>
    LET RECURSIVE gens(_)
        gens(bs) == Concat([k \in 1..Len(bs) |->
          (IF Generated(bs[k]) THEN bs[k].id ELSE <<>>)
          \o gens(bs[k].kids)] \o <<>>)
        g == gens(Blocks)
    IN Cardinality(ToSet(g)) = Len(g) /\ ToSet(g) \subseteq DOMAIN cat.ids

\* (C08) locked attributes keep their value; nothing unlocks them
Locked(n) == n \in DOMAIN A /\
  (A[n].ctx = "api" \/ (phase = "hdr" /\ A[n].ctx = "body") \/ (phase = "body" /\ A[n].ctx = "header"))
LocksHold ==
  [][i' = i => \A n \in DOMAIN A:
       /\ n \in DOMAIN A' /\ A'[n].ctx = A[n].ctx
       /\ Locked(n) => A'[n] = A[n]]_vars
OneRefusal == [][last' \in {"refused", "h-refused"} => Len(warns') > Len(warns)]_vars
\* (C09, C27) in the body only an entry changes an attribute, and only the one it names
OnlyEntries ==
  [][phase = "body" /\ i' = i /\ A' # A => last' = "entry" /\
       Cardinality({n \in DOMAIN A': n \notin DOMAIN A \/ A[n] # A'[n]}) = 1]_vars

\* (C12) every document starts afresh, except for its attributes
Afresh == (phase = "hdr" /\ ln = 1) => cat = EmptyCat /\ num = Num0 /\ warns = <<>> /\ stack = <<>>

\* (C01) every action but opening or closing consumes a line
Progress ==
  [][phase = "body" /\ phase' = "body" => (ln' > ln \/ Len(stack') < Len(stack))]_vars
=============================================================================
