-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of one-character strings, e.g. <<"a", "b">>.        *)
(* C("ab") is the text written ab.  Positions are 1-based; a span of a     *)
(* text is a pair <<from, to>> with `to' exclusive.                        *)
(*                                                                         *)
(* Characters outside ASCII are classified by the table in chars.json      *)
(* (Unicode properties of the sample characters the drivers use).          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

C(str) == IF str = "" THEN <<>> ELSE [i \in 1..Len(str) |-> SubSeq(str, i, i)] \o <<>>

Tab == "\t"
NL  == "\n"
CR  == "\r"
SP  == " "
BSL == "\\"
DQ  == "\""
SQ  == "'"
BT  == "`"

CharTable == JsonDeserialize("chars.json")
SetOf(name) == ToSet(CharTable[name])

Digits   == ToSet(C("0123456789"))
LowerAZ  == ToSet(C("abcdefghijklmnopqrstuvwxyz"))
UpperAZ  == ToSet(C("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
AsciiAlpha == LowerAZ \cup UpperAZ
AsciiAlnum == AsciiAlpha \cup Digits
HexDigits  == Digits \cup ToSet(C("abcdefABCDEF"))

\* Unicode classes (ASCII members plus the table).
Alphabetic == AsciiAlpha \cup SetOf("alphabetic")       \* \p{Alphabetic}, char::is_alphabetic
LetterL    == AsciiAlpha \cup SetOf("letter")           \* \p{L}
Nd         == Digits \cup SetOf("nd")                   \* \p{Nd}, \d
NumberN    == Digits \cup SetOf("number")               \* \p{N}, char::is_numeric
Alnum      == Alphabetic \cup NumberN                   \* char::is_alphanumeric
WordCh     == AsciiAlnum \cup {"_"} \cup SetOf("word")  \* \w
SpaceCh    == {SP, Tab, NL, CR} \cup SetOf("space")     \* \s, char::is_whitespace
Blank      == {SP, Tab}
NoNL       == {NL}
Ctrl       == SetOf("control")                          \* ASCII control characters

TokOpen  == CharTable["tokopen"]
TokClose == CharTable["tokclose"]
TokSep   == CharTable["toksep"]
PassOpen  == CharTable["passopen"]
PassClose == CharTable["passclose"]

LowerMap == CharTable["lower"]      \* record: upper-case char -> lower-case text
LowerDom == DOMAIN LowerMap
LowerOf(c) == IF c \in LowerDom THEN LowerMap[c] ELSE <<c>>
Utf8Map  == CharTable["utf8"]       \* record: non-ASCII char -> UTF-8 bytes (as integers)
Utf8Dom  == DOMAIN Utf8Map
Utf8Width(c) == IF c \in Utf8Dom THEN Len(Utf8Map[c]) ELSE 1
ByteLen(s) == FoldLeft(LAMBDA a, c: a + Utf8Width(c), 0, s)

Sub(s, a, b) == SubSeq(s, a, b - 1)      \* the text of span <<a, b>>
From(s, a)   == SubSeq(s, a, Len(s))
Upto(s, n)   == SubSeq(s, 1, n)

NonEmpty(s) == Len(s) > 0
IsEmpty(s)  == Len(s) = 0

StartsC(s, c)  == Len(s) > 0 /\ s[1] = c
EndsC(s, c)    == Len(s) > 0 /\ s[Len(s)] = c
StartsIn(s, S) == Len(s) > 0 /\ s[1] \in S
EndsIn(s, S)   == Len(s) > 0 /\ s[Len(s)] \in S
HasC(s, c)     == SelectInSeq(s, LAMBDA x: x = c) > 0
HasIn(s, S)    == SelectInSeq(s, LAMBDA x: x \in S) > 0
AllIn(s, S)    == SelectInSeq(s, LAMBDA x: x \notin S) = 0

\* first position >= from holding c; 0 if none
IndexC(s, c, from) ==
  IF from > Len(s) THEN 0 ELSE SelectInSubSeq(s, from, Len(s), LAMBDA x: x = c)
IndexIn(s, S, from) ==
  IF from > Len(s) THEN 0 ELSE SelectInSubSeq(s, from, Len(s), LAMBDA x: x \in S)
IndexNotIn(s, S, from) ==
  IF from > Len(s) THEN 0 ELSE SelectInSubSeq(s, from, Len(s), LAMBDA x: x \notin S)
\* first position >= from that is not in S, or Len+1
SkipIn(s, S, from) ==
  IF from > Len(s) THEN from
  ELSE LET p == SelectInSubSeq(s, from, Len(s), LAMBDA x: x \notin S)
       IN IF p = 0 THEN Len(s) + 1 ELSE p
LastNotIn(s, S) == IF s = <<>> THEN 0 ELSE SelectLastInSeq(s, LAMBDA x: x \notin S)
LastIn(s, S) == IF s = <<>> THEN 0 ELSE SelectLastInSeq(s, LAMBDA x: x \in S)

StartsW(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsW(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
AtW(s, i, p)  == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

\* first position >= from where the (non-empty) text p occurs; 0 if none
RECURSIVE FindW(_, _, _)
FindW(s, p, from) ==
  LET i == IndexC(s, p[1], from)
  IN IF i = 0 THEN 0 ELSE IF AtW(s, i, p) THEN i ELSE FindW(s, p, i + 1)
HasW(s, p) == FindW(s, p, 1) > 0

TrimEnd(s, S)   == SubSeq(s, 1, LastNotIn(s, S))
TrimStart(s, S) == From(s, SkipIn(s, S, 1))
TrimBoth(s, S)  == TrimStart(TrimEnd(s, S), S)

\* Rust's str::split(c): always at least one piece
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, from) ==
  LET i == IndexC(s, c, from)
  IN IF i = 0 THEN <<From(s, from)>>
     ELSE <<Sub(s, from, i)>> \o SplitFrom(s, c, i + 1)
Split(s, c) == SplitFrom(s, c, 1)

RECURSIVE Join(_, _)
Join(l, sep) ==
  IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
Concat(l) == FoldLeft(LAMBDA a, b: a \o b, <<>>, l)

\* Rust's str::replace for a non-empty pattern
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(s, p, r, from) ==
  LET i == FindW(s, p, from)
  IN IF i = 0 THEN From(s, from)
     ELSE Sub(s, from, i) \o r \o ReplFrom(s, p, r, i + Len(p))
Repl(s, p, r) == ReplFrom(s, p, r, 1)

\* A capital sigma at the end of a word becomes a final one (Unicode's Final_Sigma): some cased character comes
\* before it and none after it, in both directions past characters that case mapping ignores.
Cased == SetOf("cased")
CaseIgnorable == SetOf("caseignorable")
CapitalSigma == CharTable["capitalsigma"]
FinalSigma == CharTable["finalsigma"]
CasedBefore(s, i) == \E j \in 1..(i - 1): s[j] \in Cased /\ \A k \in (j + 1)..(i - 1): s[k] \in CaseIgnorable
CasedAfter(s, i) == \E j \in (i + 1)..Len(s): s[j] \in Cased /\ \A k \in (i + 1)..(j - 1): s[k] \in CaseIgnorable
Lower(s) == IF CapitalSigma \in ToSet(s)
            THEN FoldLeft(LAMBDA a, i: a \o IF s[i] = CapitalSigma /\ CasedBefore(s, i) /\ ~CasedAfter(s, i) THEN <<FinalSigma>> ELSE LowerOf(s[i]),
                          <<>>, [i \in 1..Len(s) |-> i])
            ELSE FoldLeft(LAMBDA a, c: a \o LowerOf(c), <<>>, s)

\* Rust's str::lines(): split at \n, strip one \r before it, no final empty line
StripCR(l) == IF EndsC(l, CR) THEN Upto(l, Len(l) - 1) ELSE l
LinesOf(s) ==
  LET p == Split(s, NL)
      q == IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
      n == Len(p)
  IN [i \in 1..Len(q) |-> IF i < n THEN StripCR(q[i]) ELSE q[i]] \o <<>>

DigitText == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN <<DigitText[n + 1]>>
              ELSE NumText(n \div 10) \o <<DigitText[(n % 10) + 1]>>
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)

CountC(s, c) == FoldLeft(LAMBDA a, x: IF x = c THEN a + 1 ELSE a, 0, s)

None == <<>>
Some(x) == <<x>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
