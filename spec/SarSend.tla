------------------------------- MODULE SarSend -------------------------------
(***************************************************************************)
(* Frames on the wire.  A socket is open or closed, of a family, connected *)
(* to one receiver or to none; what arrives at a receiver is kept in its   *)
(* inbox with the socket it came from.  Sending a frame is one datagram    *)
(* that is its encoding, at the one receiver it is for; a frame without an *)
(* encoding, or one that cannot get there, is an error and sends nothing.  *)
(***************************************************************************)
EXTENDS SarFrames

VARIABLES socks,       \* [open, fam, peer], fam "v4", "v6" or "any"; peer 0 if not connected
          inbox        \* of each receiver: sequence of [from, b]
nvars == << socks, inbox >>
RFam == << "v4", "v4", "v6", "v6" >>       \* families of the receivers
LongV4 == 65507                            \* the largest datagram
Longest == 65535

NInit(s) == socks = s /\ inbox = [r \in 1 .. Len(RFam) |-> << >>]

\* a beacon only goes to the peer of its socket
Dest(s, ft, to) == IF socks[s].peer # 0 THEN socks[s].peer ELSE IF ft = "beacon" THEN 0 ELSE to
Gets(s, d) == /\ socks[s].open /\ d # 0
              /\ socks[s].fam \in {"any", RFam[d]}
Send(s, ft, f, to, ok) ==
  LET d == Dest(s, ft, to)
      b == BytesOf(ft, f) IN
  /\ UNCHANGED socks
  /\ IF ~Encodable(ft, f) \/ ~Gets(s, d) THEN ~ok /\ UNCHANGED inbox
     ELSE /\ Len(b) > Longest => ~ok
          /\ Len(b) <= LongV4 => ok
          /\ inbox' = IF ok THEN [inbox EXCEPT ![d] = Append(@, [from |-> s, b |-> b])] ELSE inbox
Close(s) == socks' = [socks EXCEPT ![s].open = FALSE] /\ UNCHANGED inbox
ReadAll  == inbox' = [r \in DOMAIN inbox |-> << >>] /\ UNCHANGED socks
=============================================================================
