------------------------------ MODULE PartsTrace ------------------------------
(* Judges recorded executions of several buttons and lamps side by side.        *)
EXTENDS Parts, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps, skip
vars == <<l, ps, skip>>
After(e) ==
  CASE e.k = "N" -> (e.o :> (IF e.ps >= 0 THEN NewSwitch(e.ps, e.hd = 1, e.now) ELSE NewLed(e.now))) @@ ps
    [] e.k = "p" -> [i \in DOMAIN ps |-> Pass(ps[i], e.ms)]
    [] e.k \in {"h", "f"} /\ e.o \notin DOMAIN ps -> ps
    [] OTHER -> [ps EXCEPT ![e.o] = Do(@, e.k, e.now)]
Want(q, now) == [i \in DOMAIN q |-> Seen(q[i], now)]
Got(e) == LET D == {e.v[j][1] : j \in DOMAIN e.v}
          IN [i \in D |-> LET x == CHOOSE x \in Range(e.v) : x[1] = i IN SubSeq(x, 2, Len(x))]
Init == l = 1 /\ ps = <<>> /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.t = skip THEN UNCHANGED <<ps, skip>>
           ELSE IF e.k = "crash" THEN PrintT("MISMATCH " \o ToJson([t |-> e.t, line |-> l, bad |-> <<"crash">>, want |-> 0])) /\ skip' = e.t /\ UNCHANGED ps
           ELSE IF e.k = "T" THEN ps' = <<>> /\ UNCHANGED skip
           ELSE LET q == After(e)
                IN IF Got(e) = Want(q, e.now) THEN ps' = q /\ UNCHANGED skip
                   ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> e.t, line |-> l, bad |-> <<"seen">>, want |-> ToString(Want(q, e.now))]))
                        /\ skip' = e.t /\ UNCHANGED ps
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
