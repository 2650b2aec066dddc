----------------------------- MODULE EventTrace -----------------------------
(***************************************************************************)
(* P34: judges recorded executions of several modules on one bus.  The       *)
(* specification of each module (Node) runs alongside the code, fed with the  *)
(* same stimuli; what concerns events has to agree at every step: what goes    *)
(* into the tables, which events are sent, which handlers are called.         *)
(* "V": a frame won the bus (node 0: from a tool); "G": everything sent was    *)
(* delivered.  An event a module sent is on the wire once, in the order sent.   *)
(***************************************************************************)
EXTENDS NodeTrace
VARIABLE out       \* node -> events it has sent that have not been on the wire yet
evars == <<l, ns, skip, out>>

EventOps == NumLong \cup NumShort \cup {179, 180, 212, 213, 243, 244, 157, 158, 189, 190, 221, 222, 253, 254}
Events(ms) == SelectSeq(ms, LAMBDA m : Len(m) > 0 /\ m[1] \in EventOps)

WrongEvents(c, s, o, r) ==
  LET w(ok, name) == IF ok THEN {} ELSE {name}
  IN UNION { w(IF r.k = "Q" /\ Has(c, 8) THEN Bag(r.cb) = Bag(o.cb) ELSE r.cb = o.cb, "calls"),
             w(Events(Msgs(r)) = Events(o.tx), "events"),
             w(EvDiff(r) = EvChange(s, o.s), "table"),
             w(((r.fl \div 32) % 2 = 1) = o.s.learn, "learn") }

Complain(r, bad, want) ==
  /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, k |-> r.k, bad |-> SetToSeq(bad), want |-> want]))
  /\ skip' = r.t /\ UNCHANGED <<ns, out>>

EInit == Init /\ out = <<>>

ENext ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
     CASE r.t = skip \/ r.k = "U" -> l' = l + 1 /\ UNCHANGED <<ns, skip, out>>
       [] r.k \in {"C", "I"} -> /\ Next
                                /\ out' = IF r.k = "C" THEN (r.n :> <<>>) @@ (IF r.n = 1 THEN <<>> ELSE out) ELSE out
       [] r.k = "crash" -> l' = l + 1 /\ Complain(r, {"crash"}, r.why)
       [] r.k = "V" -> /\ l' = l + 1
                       /\ LET e == Events(<<r.f.d>>)
                          IN IF r.n = 0 \/ e = <<>> THEN UNCHANGED <<ns, skip, out>>
                             ELSE IF out[r.n] # <<>> /\ Head(out[r.n]) = r.f.d /\ r.f.x = 0 /\ r.f.r = 0
                             THEN out' = [out EXCEPT ![r.n] = Tail(@)] /\ UNCHANGED <<ns, skip>>
                             ELSE Complain(r, {"wire"}, out[r.n])
       [] r.k = "G" -> /\ l' = l + 1
                       /\ IF \A i \in DOMAIN out : out[i] = <<>> THEN UNCHANGED <<ns, skip, out>>
                          ELSE Complain(r, {"left"}, [i \in DOMAIN out |-> out[i]])
       [] OTHER -> /\ l' = l + 1
                   /\ LET n == ns[r.n]
                          o == Step(n.c, n.s, r, Hints(r))
                          bad == WrongEvents(n.c, n.s, o, r)
                      IN IF bad = {}
                         THEN /\ ns' = [ns EXCEPT ![r.n].s = o.s]
                              /\ out' = [out EXCEPT ![r.n] = IF r.k \in {"X", "B"} THEN <<>> ELSE @ \o Events(o.tx)]
                              /\ UNCHANGED skip
                         ELSE Complain(r, bad, [cb |-> o.cb, tx |-> Events(o.tx), learn |-> o.s.learn, ev |-> ToString(EvChange(n.s, o.s))])
ESpec == EInit /\ [][ENext]_evars
=============================================================================
