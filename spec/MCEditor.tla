------------------------------ MODULE MCEditor ------------------------------
EXTENDS SarEditor, Json, TLC
CONSTANTS Depth, Chars, Keep
VARIABLES n, hist
vars == << edvars, n, hist >>
Note(k, c) == hist' = IF Keep THEN Append(hist, [k |-> k, c |-> c]) ELSE hist
Init == lines = << << >> >> /\ first = 9 /\ at = 1 /\ cur = 0 /\ ran = << >> /\ screen = [w |-> 4, h |-> 3, p |-> 1] /\ n = 0 /\ hist = << >>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E c \in Chars : Type(c) /\ Note("char", c)
           \/ Left /\ Note("left", "")
           \/ Right /\ Note("right", "")
           \/ Back /\ Note("back", "")
           \/ Enter /\ Note("enter", "")
           \/ Up /\ Note("up", "")
           \/ Down /\ Note("down", "")
Spec == Init /\ [][Next]_vars
Inside == at \in 1 .. Len(lines) /\ cur \in 0 .. Len(line) /\ Row \in Top .. Total - 1
Numbered == Len(lines) <= Len(ran) + 1 /\ \A i \in 1 .. Len(ran) : ran[i] # << >>
\* what is run is what was there, and nothing is run but by entering it; only the line being typed changes
RunsTheLine == [][/\ IF ran' = ran THEN TRUE ELSE ran' = Append(ran, line)
                  /\ \A i \in 1 .. Len(lines) - 1 : lines'[i] = lines[i]
                  /\ at # Len(lines) => lines' = lines]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
