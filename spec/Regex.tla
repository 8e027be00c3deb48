------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* A small leftmost-first ("Perl-like", as in Rust's regex crate) regular  *)
(* expression engine.  Expressions are built with the combinators below,   *)
(* compiled to a program of instructions and run by backtracking.          *)
(* A match is a sequence m of spans: m[1] is the whole match and m[g + 1]  *)
(* is capture group g; an unset group is <<0, 0>>.                         *)
(***************************************************************************)
EXTENDS Text

In(S)       == [t |-> "in", set |-> S]
NotIn(S)    == [t |-> "not", set |-> S]
Ch(c)       == [t |-> "in", set |-> {c}]
AnyCh       == [t |-> "not", set |-> {}]           \* . with dot_matches_new_line
Dot         == [t |-> "not", set |-> {NL}]
Cat(l)      == [t |-> "cat", l |-> l]
Alt(l)      == [t |-> "alt", l |-> l]
Opt(x)      == [t |-> "opt", x |-> x]              \* x?
OptLazy(x)  == [t |-> "optl", x |-> x]             \* x??
Star(x)     == [t |-> "star", x |-> x]             \* x*
StarLazy(x) == [t |-> "starl", x |-> x]            \* x*?
Plus(x)     == Cat(<<x, Star(x)>>)                 \* x+
PlusLazy(x) == Cat(<<x, StarLazy(x)>>)             \* x+?
Cap(g, x)   == [t |-> "cap", g |-> g, x |-> x]
Empty       == [t |-> "cat", l |-> <<>>]
At(what)    == [t |-> "at", w |-> what]
Bol    == At("bot")        \* ^ (not multi-line)
Eol    == At("eot")        \* $ (not multi-line)
BolM   == At("bol")        \* ^ (multi-line)
EolM   == At("eol")        \* $ (multi-line)
StartHalf == At("sh")      \* \b{start-half}
EndHalf   == At("eh")      \* \b{end-half}
WordB     == At("wb")      \* \b
LitT(text) == Cat([i \in 1..Len(text) |-> Ch(text[i])] \o <<>>)
Lit(str)   == LitT(C(str))
UptoN(x, n) == LET r[k \in 0..n] == IF k = 0 THEN Empty ELSE Opt(Cat(<<x, r[k - 1]>>)) IN r[n]

\* Instructions: [op |-> "in"/"not", set], [op |-> "jmp", d], [op |-> "split", d, e]
\* (try pc+d first, then pc+e), [op |-> "open"/"close", g], [op |-> "at", w],
\* [op |-> "ok"].
RECURSIVE Code(_)
CodeList(l) == FoldLeft(LAMBDA a, x: a \o Code(x), <<>>, l)
RECURSIVE CodeAlt(_)
CodeAlt(l) ==
  IF Len(l) = 1 THEN Code(l[1])
  ELSE LET a == Code(l[1])
           b == CodeAlt(Tail(l))
       IN <<[op |-> "split", d |-> 1, e |-> Len(a) + 2]>> \o a
          \o <<[op |-> "jmp", d |-> Len(b) + 1]>> \o b
Code(x) ==
  CASE x.t = "in"   -> <<[op |-> "in", set |-> x.set]>>
    [] x.t = "not"  -> <<[op |-> "not", set |-> x.set]>>
    [] x.t = "cat"  -> CodeList(x.l)
    [] x.t = "alt"  -> CodeAlt(x.l)
    [] x.t = "opt"  -> LET a == Code(x.x) IN <<[op |-> "split", d |-> 1, e |-> Len(a) + 1]>> \o a
    [] x.t = "optl" -> LET a == Code(x.x) IN <<[op |-> "split", d |-> Len(a) + 1, e |-> 1]>> \o a
    [] x.t = "star" -> LET a == Code(x.x)
                       IN <<[op |-> "split", d |-> 1, e |-> Len(a) + 2]>> \o a
                          \o <<[op |-> "jmp", d |-> 0 - Len(a) - 1]>>
    [] x.t = "starl" -> LET a == Code(x.x)
                        IN <<[op |-> "split", d |-> Len(a) + 2, e |-> 1]>> \o a
                           \o <<[op |-> "jmp", d |-> 0 - Len(a) - 1]>>
    [] x.t = "cap"  -> <<[op |-> "open", g |-> x.g]>> \o Code(x.x) \o <<[op |-> "close", g |-> x.g]>>
    [] x.t = "at"   -> <<[op |-> "at", w |-> x.w]>>

\* A compiled expression: program plus number of groups.
Compile(x, groups) == [p |-> Code(x) \o <<[op |-> "ok"]>>, g |-> groups]

IsW(s, i) == i >= 1 /\ i <= Len(s) /\ s[i] \in WordCh
Holds(w, s, i) ==
  CASE w = "bot" -> i = 1
    [] w = "eot" -> i = Len(s) + 1
    [] w = "bol" -> i = 1 \/ s[i - 1] = NL
    [] w = "eol" -> i = Len(s) + 1 \/ s[i] = NL
    [] w = "sh"  -> ~IsW(s, i - 1)
    [] w = "eh"  -> ~IsW(s, i)
    [] w = "ws"  -> ~IsW(s, i - 1) /\ IsW(s, i)
    [] w = "wb"  -> IsW(s, i - 1) # IsW(s, i)

\* Backtracking interpreter.  `c' holds the capture spans, `st' the stack of
\* alternatives still to try (so that the recursion is a tail recursion).
RECURSIVE Run(_, _, _, _, _)
Run(p, pc, s, i, c) ==
  LET n == p[pc] IN
  CASE n.op = "in"    -> IF i <= Len(s) /\ s[i] \in n.set THEN Run(p, pc + 1, s, i + 1, c) ELSE <<>>
    [] n.op = "not"   -> IF i <= Len(s) /\ s[i] \notin n.set THEN Run(p, pc + 1, s, i + 1, c) ELSE <<>>
    [] n.op = "split" -> LET r == Run(p, pc + n.d, s, i, c)
                         IN IF r # <<>> THEN r ELSE Run(p, pc + n.e, s, i, c)
    [] n.op = "jmp"   -> Run(p, pc + n.d, s, i, c)
    [] n.op = "open"  -> Run(p, pc + 1, s, i, [c EXCEPT ![n.g + 1] = <<i, @[2]>>])
    [] n.op = "close" -> Run(p, pc + 1, s, i, [c EXCEPT ![n.g + 1] = <<@[1], i>>])
    [] n.op = "at"    -> IF Holds(n.w, s, i) THEN Run(p, pc + 1, s, i, c) ELSE <<>>
    [] n.op = "ok"    -> [c EXCEPT ![1] = <<@[1], i>>]

\* A group that was opened but not closed on the successful path cannot occur;
\* one that was re-opened keeps its last span, as in the regex crate.
MatchAt(re, s, i) == Run(re.p, 1, s, i, [k \in 1..(re.g + 1) |-> IF k = 1 THEN <<i, 0>> ELSE <<0, 0>>] \o <<>>)

RECURSIVE Find(_, _, _)
Find(re, s, i) ==                            \* leftmost match starting at or after i, or <<>>
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET m == MatchAt(re, s, i) IN IF m # <<>> THEN m ELSE Find(re, s, i + 1)

RECURSIVE FindAllFrom(_, _, _)
FindAllFrom(re, s, i) ==
  LET m == Find(re, s, i)
  IN IF m = <<>> THEN <<>>
     ELSE <<m>> \o FindAllFrom(re, s, IF m[1][2] > m[1][1] THEN m[1][2] ELSE m[1][2] + 1)
FindAll(re, s) == FindAllFrom(re, s, 1)

\* The same for an expression that matches nowhere but at positions in `where'
\* (this only saves the search at all others).
RECURSIVE FindAllIn(_, _, _, _)
FindAllIn(re, s, i, where) ==
  IF i > Len(s) THEN <<>>
  ELSE LET m == IF where[i] THEN MatchAt(re, s, i) ELSE <<>>
       IN IF m = <<>> THEN FindAllIn(re, s, i + 1, where)
          ELSE <<m>> \o FindAllIn(re, s, IF m[1][2] > i THEN m[1][2] ELSE i + 1, where)

Matches(re, s) == MatchAt(re, s, 1) # <<>>
IsMatch(re, s) == Find(re, s, 1) # <<>>

HasG(m, g) == m[g + 1][2] > 0                \* group g took part in the match
G(s, m, g) == Sub(s, m[g + 1][1], m[g + 1][2])
GOr(s, m, g, d) == IF HasG(m, g) THEN G(s, m, g) ELSE d
GLen(m, g) == m[g + 1][2] - m[g + 1][1]
M0(s, m) == Sub(s, m[1][1], m[1][2])

\* Replace every match by what `rep' appends:  rep(acc, m) == acc \o ...
ReplaceMs(ms, s, rep(_, _)) ==
  LET one(a, m) == [d |-> rep(a.d \o Sub(s, a.p, m[1][1]), m), p |-> m[1][2]]
      r == FoldLeft(one, [d |-> <<>>, p |-> 1], ms)
  IN IF ms = <<>> THEN s ELSE r.d \o From(s, r.p)
ReplaceAllM(re, s, rep(_, _)) == ReplaceMs(FindAll(re, s), s, rep)
=============================================================================
