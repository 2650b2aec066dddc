------------------------------ MODULE BusTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of several modules on one bus against Bus.     *)
(* Records of a module as for NodeTrace; "V": a frame won the bus (node 0:    *)
(* it came from a tool); "G": everything sent was delivered; "U": every        *)
(* module has sent a message, one after the other, with time to enumerate.    *)
(* Only what a listener and a restart would see is used.                      *)
(***************************************************************************)
EXTENDS Bus, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, v, snn, settled, skip
\* snn: [on, takers] a node number was sent to a settled bus
vars == <<l, v, snn, settled, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
NoSnn == [on |-> FALSE, takers |-> {}]
\* the mode a module shows on its LEDs
Shown(r, m) == IF Len(r.md) > 0 THEN r.md[Len(r.md)] ELSE m
Accepts(r, b) == r.lv[3] # b.nn \/ r.dk[1] # b.stored \/ \E k \in DOMAIN r.tx : r.tx[k][5] = 82
Fresh(r) == [mode |-> Shown(r, r.lv[1]), canid |-> r.lv[2], nn |-> r.lv[3], stored |-> r.dk[1], enum |-> FALSE, alone |-> FALSE, el |-> 0]
Asked(r) == \E k \in DOMAIN r.dx : r.dx[k][3] = 1
IsMsg(r) == r.k = "F" /\ r.f.x = 0 /\ r.f.r = 0 /\ Len(r.f.d) > 0
Op(r) == IF IsMsg(r) THEN r.f.d[1] ELSE -1
NodeRec(r) ==
  LET i == r.n
      b == v[i]
      w == [v EXCEPT ![i].mode = Shown(r, b.mode), ![i].canid = r.lv[2], ![i].nn = r.lv[3], ![i].stored = r.dk[1], ![i].el = IF b.enum THEN (IF @ > 100000 THEN @ ELSE @ + r.dt) ELSE 0]
      told == Op(r) = 117 \/ r.k \in {"A", "X", "B"} \/ r.rb > 0
      moved == r.lv[2] # b.canid
      done == b.enum /\ (w[i].el >= 100 \/ (moved /\ ~told))
      w1 == IF r.k \in {"X", "B"} THEN Disturbed([w EXCEPT ![i].enum = FALSE]) ELSE IF moved /\ told THEN Disturbed(w) ELSE w
      w2 == IF done THEN [w1 EXCEPT ![i].enum = FALSE, ![i].el = 0] ELSE w1
      w3 == IF Asked(r) THEN Starts(w2, i) ELSE w2
      taker == Op(r) = 66 /\ Accepts(r, b)
  IN [v |-> w3,
      snn |-> IF r.k = "A" THEN NoSnn ELSE IF taker THEN [snn EXCEPT !.takers = @ \cup {i}] ELSE snn,
      bad |-> W(Op(r) = 80 => KeepsIdentity(b, w[i]), "knocked") \cup W((done /\ b.alone /\ ~told) => Unique(w, i), "adopted")
              \cup W((IsMsg(r) /\ ~b.enum /\ b.canid # 0 /\ r.f.id % 128 = b.canid /\ r.rb = 0) => Asked(r), "conflict")]
Judge(r) ==
  CASE r.k = "V" -> [v |-> v, snn |-> IF r.n = 0 /\ settled /\ Len(r.f.d) > 0 /\ r.f.d[1] = 66 THEN [on |-> TRUE, takers |-> {}] ELSE IF r.n = 0 THEN NoSnn ELSE snn, bad |-> {}]
    [] r.k = "G" -> [v |-> v, snn |-> NoSnn, bad |-> W(AtMostOneSetup(v), "setup") \cup W(snn.on => Cardinality(snn.takers) <= 1, "taken")]
    [] r.k = "U" -> [v |-> v, snn |-> snn, bad |-> W(Distinct(v), "distinct")]
    [] r.k = "crash" -> [v |-> v, snn |-> snn, bad |-> {"crash"}]
    [] OTHER -> NodeRec(r)
Init == l = 1 /\ v = <<>> /\ snn = NoSnn /\ settled = FALSE /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l] IN
           CASE r.t = skip -> UNCHANGED <<v, snn, settled, skip>>
             [] r.k \in {"C", "I"} -> IF r.k = "C" /\ r.n = 1 THEN v' = <<>> /\ snn' = NoSnn /\ settled' = FALSE /\ UNCHANGED skip ELSE UNCHANGED <<v, snn, settled, skip>>
             [] r.k = "B" -> v' = (r.n :> Fresh(r)) @@ v /\ settled' = FALSE /\ UNCHANGED <<snn, skip>>
             [] OTHER -> LET j == Judge(r)
                         IN IF j.bad = {} THEN v' = j.v /\ snn' = j.snn /\ settled' = (r.k \in {"G", "U"}) /\ UNCHANGED skip
                            ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, k |-> r.k, bad |-> SetToSeq(j.bad), want |-> [i \in DOMAIN v |-> v[i]]]))
                                 /\ skip' = r.t /\ UNCHANGED <<v, snn, settled>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
