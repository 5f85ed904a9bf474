------------------------------ MODULE SarConfig ------------------------------
(***************************************************************************)
(* The configuration file and the settings loaded from it.                 *)
(*                                                                         *)
(* A configuration is the JSON object in the file.  Settings are           *)
(*   [global |-> default flags, v4multicast |-> ..., timeout |-> [...]]    *)
(* and `objs` holds the settings of the operator and the copies taken for  *)
(* transfers.  `tables` is what the program knows of flags and commands.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

DefaultFlags == {"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}
Simple == {"v4multicast", "v6multicast", "udpport", "timestamp", "timezone", "prompt", "ppad", "buffersize", "bcount"}
TableNames == {"commands", "frameflags", "flags", "direntflags", "timestamps"}

\* every default flag is an option of its field
CfgValid(cfg) == \A f \in DefaultFlags : f \in DOMAIN cfg.flags /\ cfg[f] \in DOMAIN cfg.flags[f].options

Loaded(cfg, env) ==
  [global |-> [f \in DefaultFlags |-> cfg[f]], timeout |-> cfg.timeout,
   sardir |-> IF env = "" THEN cfg.sardir ELSE env,
   v4multicast |-> cfg.v4multicast, v6multicast |-> cfg.v6multicast, udpport |-> cfg.udpport, timestamp |-> cfg.timestamp,
   timezone |-> cfg.timezone, prompt |-> cfg.prompt, ppad |-> cfg.ppad, buffersize |-> cfg.buffersize, bcount |-> cfg.bcount]
TablesOf(cfg) == [t \in TableNames |-> cfg[t]]

VARIABLES objs,      \* settings by object
          tables
cvars == << objs, tables >>
CInit == objs = << >> /\ tables = << >>
With(o, s) == [x \in DOMAIN objs \cup {o} |-> IF x = o THEN s ELSE objs[x]]

Load(o, cfg, env) == objs' = With(o, Loaded(cfg, env)) /\ tables' = TablesOf(cfg)
Copy(from, to) == from \in DOMAIN objs /\ objs' = With(to, objs[from]) /\ UNCHANGED tables
SetFlag(o, f, v) == o \in DOMAIN objs /\ objs' = [objs EXCEPT ![o].global[f] = v] /\ UNCHANGED tables
SetField(o, f, v) == o \in DOMAIN objs /\ objs' = [objs EXCEPT ![o][f] = v] /\ UNCHANGED tables
SetTimeout(o, f, v) == o \in DOMAIN objs /\ objs' = [objs EXCEPT ![o].timeout[f] = v] /\ UNCHANGED tables
=============================================================================
