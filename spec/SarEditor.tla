----------------------------- MODULE SarEditor -----------------------------
(***************************************************************************)
(* Editing a command line: what the keys do to the line after the prompt,  *)
(* and which line is run when it is entered.                               *)
(*                                                                         *)
(* State: lines, the characters after each prompt, the last one is being   *)
(* typed; first, the number in the prompt of the first of them; at, the    *)
(* line the cursor is in, and cur, how many of its characters are before   *)
(* it; ran, the lines that were run; screen, the columns w and rows h of   *)
(* the window and p, the length of the prompt without its number.          *)
(*                                                                         *)
(* A line that is longer than the window is wide takes more than one row.  *)
(* The window shows the last rows.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES lines, first, at, cur, ran, screen
edvars == << lines, first, at, cur, ran, screen >>

line   == lines[at]
number == first + at - 1
Last   == at = Len(lines)

RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN 1 ELSE 1 + Digits(k \div 10)
Prompt(i) == screen.p + Digits(first + i - 1)
Rows(i)   == (Prompt(i) + Len(lines[i])) \div screen.w + 1
RECURSIVE Above(_)
Above(i)  == IF i = 1 THEN 0 ELSE Above(i - 1) + Rows(i - 1)
Total     == Above(Len(lines)) + Rows(Len(lines))
Top       == IF Total > screen.h THEN Total - screen.h ELSE 0
Row       == Above(at) + (Prompt(at) + cur) \div screen.w
Col       == (Prompt(at) + cur) % screen.w

\* to the row r, the column as near as the line goes
LineIn(r) == CHOOSE i \in 1 .. Len(lines) : Above(i) <= r /\ r < Above(i) + Rows(i)
GoTo(r) == LET i == LineIn(r)
               x == (r - Above(i)) * screen.w + Col
               y == IF x < Prompt(i) THEN 0 ELSE x - Prompt(i) IN
           at' = i /\ cur' = (IF y > Len(lines[i]) THEN Len(lines[i]) ELSE y) /\ UNCHANGED << lines, first, ran, screen >>
Up   == IF Row = Top THEN UNCHANGED edvars ELSE GoTo(Row - 1)
Down == IF Row = Total - 1 THEN UNCHANGED edvars ELSE GoTo(Row + 1)

\* the line being typed: a character goes over the one under the cursor
Becomes(s) == lines' = [lines EXCEPT ![at] = s] /\ UNCHANGED << first, at, ran, screen >>
Type(c) == /\ Last
           /\ Becomes(IF cur = Len(line) THEN Append(line, c) ELSE [line EXCEPT ![cur + 1] = c]) /\ cur' = cur + 1
Moved == UNCHANGED << lines, first, at, ran, screen >>
Left  == Last /\ cur' = (IF cur = 0 THEN 0 ELSE cur - 1) /\ Moved
Right == Last /\ cur' = (IF cur = Len(line) THEN cur ELSE cur + 1) /\ Moved
\* the one before the cursor goes; the prompt stays
Back  == /\ Last
         /\ IF cur = 0 THEN UNCHANGED edvars
            ELSE Becomes(SubSeq(line, 1, cur - 1) \o SubSeq(line, cur + 1, Len(line))) /\ cur' = cur - 1
\* the whole line is run, once, wherever the cursor is; one that was run before is run again
Enter == IF line = << >> THEN UNCHANGED edvars
         ELSE /\ ran' = Append(ran, line)
              /\ IF Last THEN lines' = Append(lines, << >>) /\ at' = at + 1 /\ cur' = 0 /\ UNCHANGED << first, screen >>
                 ELSE UNCHANGED << lines, first, at, cur, screen >>
\* the keys that are about other windows
Elsewhere == UNCHANGED edvars
=============================================================================
