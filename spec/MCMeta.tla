------------------------------- MODULE MCMeta -------------------------------
(* Every kind and size of file for every choice of flags: a description is   *)
(* given exactly when it can be, and it survives the wire.  And the          *)
(* generator of sequences of descriptions with one object.                   *)
EXTENDS SarMeta, Json
CONSTANTS Depth
VARIABLE hist
vars == << mvars, hist >>
Kinds == {"file", "dir", "fifo", "other"}
Sizes == { Z8, Wide(<< 1 >>), Wide(<< 255, 254 >>), Wide(<< 255, 255 >>), Wide(<< 1, 0, 0 >>), Wide(<< 255, 255, 255, 254 >>),
           Wide(<< 255, 255, 255, 255 >>), Wide(<< 1, 0, 0, 0, 0 >>), << 127, 255, 255, 255, 255, 255, 255, 255 >> }
Times == { Z8, Minus(Epoch2000, Wide(<< 1 >>)), Epoch2000, Plus(Epoch2000, Wide(<< 1 >>)), Plus(Epoch2000, Wide(<< 255, 255, 255, 255 >>)),
           Plus(Epoch2000, Wide(<< 1, 0, 0, 0, 0 >>)) } 
Sums == [crc32 |-> << 1, 2, 3, 4 >>, md5 |-> [i \in 1 .. 16 |-> i], sha1 |-> [i \in 1 .. 20 |-> 100 + i]]
P == << 97 >>
S == << 0, 0, 1, 2 >>
Now == << 0, 0, 0, 0, 96, 0, 0, 0 >>
Transfers == DOMAIN Fields["transfer"].opts
Flags(t, c) == << << "descriptor", "d32" >>, << "transfer", t >>, << "csumtype", c >> >>
MCInit == MInit /\ hist = << >>
Appear == world = << >> /\ \E k \in Kinds, z \in Sizes, m \in Times :
            Put(P, [kind |-> k, size |-> z, mtime |-> m, ctime |-> Epoch2000, sums |-> Sums])
Ask == \E t \in Transfers, c \in CsumTypes :
         LET a == FromFlags("metadata", Flags(t, c)) IN
         Describe(a, S, P, IF There(P) /\ ~Refused(a.hdr, P) THEN Description(a.hdr, S, P, Now) ELSE None,
                  There(P) /\ ~Refused(a.hdr, P), Now, Now)
MCNext == frame = None /\ (Appear \/ Ask) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_vars
\* a description can be sent, and what arrives is the same
Sendable == frame # None => MetaEncodable(frame) /\ MetaDenotes(MetaBytes(frame)) /\ MetaVal(MetaBytes(frame)) = frame
Truthful == frame # None => /\ There(P) /\ frame.path = P
                            /\ (world[P].kind # "fifo" => frame.size = world[P].size /\ Plus(Wide(frame.mtime), Epoch2000) = world[P].mtime)
                            /\ Len(frame.csum) = 4 * Get(frame.hdr, "csumlen")
                            /\ KindFor[Name(frame.hdr, "transfer")] = world[P].kind
\* Generator: which object of which kind is described how, one after the other
GNames == {"f", "d", "p", "gone", "l"}
GenNext == Len(hist) < Depth /\ \E n \in GNames, t \in Transfers, c \in CsumTypes :
             hist' = Append(hist, << n, t, c >>) /\ UNCHANGED mvars
GenSpec == MCInit /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(hist))
=============================================================================
