------------------------------ MODULE MCStatus ------------------------------
(* All ways to report up to N holes in frames of up to M, and the generator  *)
(* of reports to be made.                                                    *)
EXTENDS SarStatus, Json
CONSTANTS N, M
VARIABLES total, mx, case
vars == << todo, sent, total, mx, case >>

H(i) == << Wide(<< i >>), Wide(<< i + 1 >>) >>
Init == /\ total \in 0 .. N /\ mx \in 1 .. M /\ case = << >>
        /\ todo = [i \in 1 .. total |-> H(2 * i)] /\ sent = << >>
Next == UNCHANGED << total, mx, case >> /\ \E k \in 0 .. mx : SendFrame(k, total, mx)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Cat(Tail(ss))
Nothing == Cat(sent) \o todo = [i \in 1 .. total |-> H(2 * i)]
Fit     == \A i \in 1 .. Len(sent) : Len(sent[i]) <= mx
\* no report could do with fewer, and every one comes to its end
Fewest  == /\ todo = << >> /\ sent # << >> => Len(sent) * mx >= total
           /\ Least(total, mx) > 1 => (Least(total, mx) - 1) * mx < total
Ends    == <>Done(total, mx)

\* what a report is made of: descriptor, whether with a timestamp, the errcode
\* and allholes flags given ("" for none), the room and the number of holes
Cases == [desc : {"", "d16", "d32", "d64"}, ts : {"", "reqtstamp=yes", "reqtstamp=no", "posix64_32"},
          err : {"", "success", "badpacket"}, all : {"", "yes", "no"}, mx : {1, 2, 3, 7}, spare : {0, 1}, n : 0 .. 22]
Wanted(c) == c.n <= 3 * c.mx + 1 /\ (c.n <= 2 \/ c.n % c.mx \in {0, 1, c.mx - 1}) /\ (c.all = "" \/ c.ts = "")
GenInit == case \in { c \in Cases : Wanted(c) } /\ total = 0 /\ mx = 1 /\ todo = << >> /\ sent = << >>
GenSpec == GenInit /\ [][FALSE]_vars
Emit == PrintT("SCEN " \o ToJson(case))
=============================================================================
