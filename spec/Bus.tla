-------------------------------- MODULE Bus --------------------------------
(***************************************************************************)
(* P30, P31: what several modules on one bus look like from outside.         *)
(* v: node -> [mode, canid, nn, stored, enum, alone, el]                      *)
(*    mode: what the node is in; stored: the mode a restart would find;       *)
(*    enum: a self-enumeration runs; alone: no other has run meanwhile and    *)
(*    no CANID changed; el: for how long (ms)                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
InSetup(v) == {i \in DOMAIN v : v[i].mode = 0}
Others(v, i) == {v[j].canid : j \in DOMAIN v \ {i}} \ {0}
\* P30
AtMostOneSetup(v) == Cardinality(InSetup(v)) <= 1
\* b, a: before and after hearing another node's request for a node number
KeepsIdentity(b, a) == b.mode = 0 => a.mode = b.stored /\ a.stored = b.stored /\ a.nn = b.nn
\* P31
Unique(v, i) == v[i].canid \in 1..127 /\ v[i].canid \notin Others(v, i)
Distinct(v) == \A i \in DOMAIN v : v[i].canid # 0 => v[i].canid \notin Others(v, i)
\* node i starts (or goes on with) a self-enumeration
Starts(v, i) == LET busy == \E j \in DOMAIN v \ {i} : v[j].enum
                IN [j \in DOMAIN v |-> IF j = i THEN (IF v[i].enum THEN v[i] ELSE [v[i] EXCEPT !.enum = TRUE, !.alone = ~busy, !.el = 0]) ELSE [v[j] EXCEPT !.alone = FALSE]]
Disturbed(v) == [j \in DOMAIN v |-> [v[j] EXCEPT !.alone = FALSE]]
=============================================================================
