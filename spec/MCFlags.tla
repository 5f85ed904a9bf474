------------------------------- MODULE MCFlags -------------------------------
(* Exhaustive check that the fields of every kind of header are independent: *)
(* whatever is set in whatever order, each field names what was set last.    *)
EXTENDS SarFlags, TLC, Json
CONSTANTS Kind,      \* "beacon" ... "status", "dirent" or "lists"
          Depth
VARIABLES hdr, want, list, hist
vars == << hdr, want, list, hist >>
Tab == IF Kind = "dirent" THEN DirFields ELSE Fields
FS  == IF Kind = "dirent" THEN DOMAIN DirFields ELSE IF Kind = "lists" THEN {} ELSE FrameFields[Kind]
Width0 == IF Kind = "dirent" THEN 2 ELSE 4

Init == hdr = Zeros(Width0) /\ list = << >> /\ hist = << >>
        /\ want = [f \in FS |-> NameOf(Tab[f], 0)]
SetField == \E f \in FS : \E o \in DOMAIN Tab[f].opts :
              hdr' = FSet(Tab, hdr, f, o) /\ want' = [want EXCEPT ![f] = o] /\ UNCHANGED << list, hist >>
MCNext == SetField
MCSpec == Init /\ [][MCNext]_vars
Independent == \A f \in FS : FName(Tab, hdr, f) = want[f]
NoStray == \A i \in 0 .. (8 * Width0 - 1) :
             GetBits(hdr, i, 1) = 1 => \E f \in FS : Tab[f].msb <= i /\ i < Tab[f].msb + Tab[f].len
Bytes256 == \A i \in 1 .. Width0 : hdr[i] \in Byte
Disjoint == \A f, g \in FS : f # g => Tab[f].msb + Tab[f].len <= Tab[g].msb \/ Tab[g].msb + Tab[g].len <= Tab[f].msb

\* Textual lists: adding and replacing
LNames == {"descriptor", "stream", "freespace", "freespaced", "csumtype"}
LOpts == {"d16", "d64", "yes", "bad"}
EditList == \E f \in LNames, o \in LOpts :
   \/ f \notin Names(list) /\ list' = AddTo(Fields, list, f, o)
   \/ ValidOpt(Fields, f, o) /\ list' = ReplaceIn(Fields, list, f, o)
LNext == EditList /\ UNCHANGED << hdr, want, hist >>
LSpec == Init /\ [][LNext]_vars
ListOK == /\ \A i, j \in 1 .. Len(list) : list[i][1] = list[j][1] => i = j
          /\ \A i \in 1 .. Len(list) : ValidOpt(Fields, list[i][1], list[i][2])
ReplaceOnlyThat == [][\A f \in LNames : (list' # list /\ ValueIn(list', f) # ValueIn(list, f)) =>
                        Others(list', f) = Others(list, f)]_vars

\* Generators: sequences of sets over the whole table, and of list edits
GOps == { << f, o >> : f \in DOMAIN Fields, o \in {"bogus"} } \cup { << "bogus", "yes" >> }
        \cup UNION { { << f, o >> : o \in DOMAIN Fields[f].opts } : f \in DOMAIN Fields }
GDOps == { << f, o >> : f \in DOMAIN DirFields, o \in {"bogus"} } \cup { << "bogus", "d16" >> }
        \cup UNION { { << f, o >> : o \in DOMAIN DirFields[f].opts } : f \in DOMAIN DirFields }
GenNext == /\ Len(hist) < Depth
           /\ \E p \in (IF Kind = "dirent" THEN GDOps ELSE GOps) : hist' = Append(hist, p)
           /\ UNCHANGED << hdr, want, list >>
GenSpec == Init /\ [][GenNext]_vars
LGenOps == { << op, f, o >> : op \in {"add", "replace"}, f \in LNames, o \in LOpts } \cup { << "value", f, "" >> : f \in LNames \cup {"free"} }
LGenNext == /\ Len(hist) < Depth
            /\ \E p \in LGenOps : hist' = Append(hist, p)
            /\ UNCHANGED << hdr, want, list >>
LGenSpec == Init /\ [][LGenNext]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson([kind |-> Kind, ops |-> hist]))
=============================================================================
