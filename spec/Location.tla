------------------------------ MODULE Location ------------------------------
(***************************************************************************)
(* Where a character of a text stands: a cursor that moves through the     *)
(* text one character at a time and counts bytes (UTF-8), lines and        *)
(* columns (both from 1, columns in characters).                           *)
(***************************************************************************)
EXTENDS Text

Start == [p |-> 1, off |-> 0, line |-> 1, col |-> 1]
After(c, ch) ==
  [p |-> c.p + 1, off |-> c.off + Utf8Width(ch),
   line |-> IF ch = NL THEN c.line + 1 ELSE c.line,
   col |-> IF ch = NL THEN 1 ELSE c.col + 1]
=============================================================================
