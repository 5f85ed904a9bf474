------------------------------ MODULE SarShow ------------------------------
(***************************************************************************)
(* What the command lines show: the settings, the transfers in progress,   *)
(* the peers known and the help, as they are at that moment.               *)
(*                                                                         *)
(* State: the settings (SarCommands); xfers, the transfers in progress, a  *)
(* sequence of [dir, type, peer, file]; peers, a sequence of [addr, free (8     *)
(* bytes, KB), eid, desc, rx, tx, created, updated]; help, a function from *)
(* the commands to [help, usage].                                          *)
(*                                                                         *)
(* What is shown is a sequence of lines in the message window and one in   *)
(* the error window.  A line: [norm: the text without separators, words:   *)
(* the words [w, num, n], cells: of a row of a table, gb: the second cell  *)
(* as a number, about: whose usage is in it].  The order of the lines of   *)
(* different writes is open.                                               *)
(***************************************************************************)
EXTENDS SarCommands

VARIABLES xfers, peers, help

WordsOf(ls) == UNION { { ls[i].words[j].w : j \in 1 .. Len(ls[i].words) } : i \in 1 .. Len(ls) }
NumsOf(ls)  == UNION { { ls[i].words[j].n : j \in { k \in 1 .. Len(ls[i].words) : ls[i].words[k].num } } : i \in 1 .. Len(ls) }
Norms(ls)   == { ls[i].norm : i \in 1 .. Len(ls) }

(*------------------------------ settings --------------------------------*)
StampNames == { x[2] : x \in Stamps }
YesNo == {"freespace", "reqtstamp", "stream"}
Setters == DOMAIN Choices \cup {"timestamp", "timezone", "bcount", "interval", "timeout"}
G(s, f) == IF f \in DOMAIN s.global THEN s.global[f] ELSE ""
TimeoutOf(s, f) == CASE f = "metadata" -> s.metadata [] f = "request" -> s.request [] f = "status" -> s.status
                     [] f = "transfer" -> s.transfer [] f = "datacounter" -> s.datacounter

\* The facts about setting c in s: which of the words that could be its value
\* appear, is it denied, and the numbers
VocabOf(c) == CASE c \in DOMAIN Choices \ YesNo -> Allowed[Flag(c)]
                [] c = "timestamp" -> StampNames \cup {"yes", "no"}
                [] c = "timezone" -> {"local", "utc"}
                [] OTHER -> {}
Some(v) == IF AllZero(v) THEN {} ELSE {v}
FactsOf(c, s) ==
  [words |-> CASE c \in DOMAIN Choices \ YesNo -> {G(s, Flag(c))} \cap VocabOf(c)
               [] c = "timestamp" -> {s.timestamp, G(s, "reqtstamp")} \cap VocabOf(c)
               [] c = "timezone" -> {s.timezone}
               [] OTHER -> {},
   denied |-> c \in YesNo /\ G(s, c) # "yes",
   nums |-> CASE c = "bcount" -> Some(s.bcount) [] c = "interval" -> Some(s.binterval)
              [] c \in Timeouts -> Some(TimeoutOf(s, c)) [] OTHER -> {}]
Extract(c, ls) ==
  [words |-> WordsOf(ls) \cap VocabOf(c),
   denied |-> c \in YesNo /\ WordsOf(ls) \cap {"not", "cannot"} # {},
   nums |-> IF c \in {"bcount", "interval"} \cup Timeouts THEN NumsOf(ls) \ {N8(0)} ELSE {}]
Tells(c, s, ls) == Len(ls) > 0 /\ Extract(c, ls) = FactsOf(c, s)

\* one line for each of the timeouts fs.  How a datacounter of 0, which only a
\* configuration file can set, is shown is open
AboutTimeout(f, l) == IF Len(l.words) = 0 THEN FALSE
                      ELSE IF f = "datacounter" THEN l.words[1].w \in {"datacounter", "data"} ELSE l.words[1].w = f
TellsTimeouts(fs, s, ls) ==
  /\ Len(ls) = Cardinality(fs)
  /\ \A f \in fs : \E i \in 1 .. Len(ls) :
       /\ AboutTimeout(f, ls[i])
       /\ (f = "datacounter" /\ AllZero(s.datacounter)) \/ Tells(f, s, << ls[i] >>)

(*------------------------------- tables ---------------------------------*)
Rows(ls) == SelectSeq(ls, LAMBDA x : Len(x.cells) > 0)
Count(seq, x) == Cardinality({ i \in 1 .. Len(seq) : seq[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Count(a, a[i]) = Count(b, a[i])

XferRow(x) == << x.dir, x.type, x.peer, x.file >>
OfType(t) == SelectSeq(xfers, LAMBDA x : t = "" \/ x.type = t)
ListsTransfers(t, ls) ==
  LET want == OfType(t)
      rows == Rows(ls) IN
  IF want = << >> THEN rows = << >> /\ ls # << >>
  ELSE /\ Len(rows) = Len(want) + 1                          \* one is the heading
       /\ SameBag([i \in 1 .. Len(want) |-> rows[i + 1].cells], [i \in 1 .. Len(want) |-> XferRow(want[i])])

\* KB to GB
GB(v) == LET w == << 0, 0 >> \o SubSeq(v, 1, 6)
         IN [i \in 1 .. 8 |-> (w[i] \div 16) + (IF i = 1 THEN 0 ELSE (w[i - 1] % 16) * 16)]
PeerRow(p) == [gb |-> GB(p.free), rest |-> << p.addr, p.eid, p.desc, p.rx, p.tx, p.created, p.updated >>]
RowPeer(l) == [gb |-> l.gb, rest |-> << l.cells[1] >> \o SubSeq(l.cells, 3, Len(l.cells))]
ListsPeers(ps, ls) ==
  LET rows == Rows(ls) IN
  IF ps = << >> THEN rows = << >> /\ ls # << >>
  ELSE /\ Len(rows) = Len(ps) + 1
       /\ SameBag([i \in 1 .. Len(ps) |-> RowPeer(rows[i + 1])], [i \in 1 .. Len(ps) |-> PeerRow(ps[i])])

(*-------------------------------- help ----------------------------------*)
HelpLine(c)  == IF help[c].help = "" THEN c ELSE c \o " " \o help[c].help
UsageLine(c) == c \o " " \o help[c].usage
ListsHelp(ls)  == Norms(ls) = { HelpLine(c) : c \in DOMAIN help } /\ Len(ls) = Cardinality(DOMAIN help)
ListsUsage(ls) == Norms(ls) = { UsageLine(c) : c \in DOMAIN help } /\ Len(ls) = Cardinality(DOMAIN help)
ListsBoth(ls)  == /\ Norms(ls) = { HelpLine(c) : c \in DOMAIN help } \cup { help[c].usage : c \in DOMAIN help }
                  /\ Len(ls) = 2 * Cardinality(DOMAIN help)
HelpsWith(c, ls) == Norms(ls) = {HelpLine(c), "usage " \o help[c].usage}

(*--------------------------- the command lines --------------------------*)
Lister == [get |-> "get", getdir |-> "getdir", take |-> "take", put |-> "put", putblind |-> "putblind", give |-> "give",
           delete |-> "delete", files |-> "", tran |-> ""]
Types == DOMAIN Lister \ {"files", "tran"}
Known(c) == c \in DOMAIN help

Accepts(ws) ==
  LET c == ws[1].w
      a == ws[2].w IN
  IF Len(ws) = 2 THEN
    CASE c \in DOMAIN Choices -> a \in DOMAIN Choices[c]
      [] c = "timestamp" -> a = "off" \/ \E x \in Stamps : x[1] = a
      [] c = "timezone" -> a \in {"local", "utc"}
      [] c = "bcount" -> ws[2].num
      [] c = "interval" -> ws[2].num \/ a = "off"
      [] OTHER -> FALSE
  ELSE Len(ws) = 3 /\ c = "timeout" /\ a \in Timeouts /\ (ws[3].num \/ ws[3].w = "off")
\* open: numbers written oddly, and a size the platform does not support
Open(ws) == \/ \E i \in 2 .. Len(ws) : ws[i].odd
            \/ Len(ws) = 2 /\ ws[1].w = "descriptor" /\ ws[2].w = "d128"

Kind(ws) ==
  IF ws = << >> THEN "nothing" ELSE
  LET c == ws[1].w
      a == IF Len(ws) >= 2 THEN ws[2].w ELSE "" IN
  IF ~ Known(c) THEN "unknown"
  ELSE IF c \in {"help", "?"} THEN (IF Len(ws) = 1 THEN "help" ELSE IF Len(ws) = 2 /\ a = "?" THEN "both" ELSE "free")
  ELSE IF c = "usage" THEN (IF Len(ws) <= 2 THEN "usage" ELSE "free")
  ELSE IF c = "cancel" THEN "free"
  ELSE IF Len(ws) = 2 /\ a = "?" THEN "helps"
  ELSE IF c \in Setters THEN
    (IF Len(ws) = 1 THEN "query"
     ELSE IF c = "timeout" /\ Len(ws) = 2 /\ a \in Timeouts THEN "timeout"
     ELSE IF Accepts(ws) THEN "set" ELSE IF Open(ws) THEN "free" ELSE "refused")
  ELSE IF c \in DOMAIN Lister THEN
    (IF Len(ws) = 1 THEN "transfers"
     ELSE IF c = "tran" /\ Len(ws) = 2 /\ a \in Types THEN "oftype"
     ELSE IF c \in Types /\ Len(ws) = 3 THEN "start" ELSE "refused")
  ELSE IF c = "peers" THEN (IF Len(ws) = 1 THEN "peers" ELSE "refused")
  ELSE IF c \in {"exit", "quit"} THEN (IF Len(ws) = 1 THEN "free" ELSE IF Len(ws) = 2 /\ a \in {"0", "1"} THEN "free" ELSE "refused")
  ELSE IF c = "rmtran" THEN (IF Len(ws) = 4 THEN "free" ELSE "refused")
  ELSE IF c = "home" THEN (IF Len(ws) = 1 THEN "free" ELSE "refused")
  ELSE IF c = "history" THEN (IF Len(ws) <= 2 THEN "free" ELSE "refused")
  ELSE "free"

\* quit is another name of exit
Names(c) == IF c = "quit" THEN {"quit", "exit"} ELSE {c}

\* msg and err may be shown for the command line ws, s being the settings after it
Shows(ws, s, msg, err) ==
  LET k == Kind(ws)
      c == ws[1].w IN
  CASE k = "nothing" -> msg = << >> /\ err = << >>
    [] k = "unknown" -> err # << >>
    [] k = "help"    -> err = << >> /\ ListsHelp(msg)
    [] k = "both"    -> err = << >> /\ ListsBoth(msg)
    [] k = "usage"   -> err = << >> /\ ListsUsage(msg)
    [] k = "helps"   -> err = << >> /\ \E n \in Names(c) \cap DOMAIN help : HelpsWith(n, msg)
    [] k = "query"   -> err = << >> /\ IF c = "timeout" THEN TellsTimeouts(Timeouts, s, msg) ELSE Tells(c, s, msg)
    [] k = "timeout" -> err = << >> /\ TellsTimeouts({ws[2].w}, s, msg)
    [] k = "set"     -> err = << >> /\ (msg = << >> \/ IF c = "timeout" THEN TellsTimeouts({ws[2].w}, s, msg) ELSE Tells(c, s, msg))
    [] k = "transfers" -> err = << >> /\ ListsTransfers(Lister[c], msg)
    [] k = "oftype"  -> err = << >> /\ ListsTransfers(ws[2].w, msg)
    [] k = "peers"   -> err = << >> /\ ListsPeers(peers, msg)
    [] k = "start"   -> msg # << >> \/ err # << >>
    [] k = "refused" -> \E i \in 1 .. Len(err) : \E n \in Names(c) : n \in { err[i].about[j] : j \in 1 .. Len(err[i].about) }
    [] OTHER -> TRUE
=============================================================================
