------------------------------- MODULE UiTrace -------------------------------
EXTENDS Ui, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, u, serial, skip
vars == <<l, u, serial, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
After(r) == CASE r.k = "N" -> [req |-> <<>>, u |-> New]
              [] r.k = "b" -> Sample(u, r.a = 1, r.ms)
              [] r.k = "m" -> [req |-> <<>>, u |-> Indicate(u, r.a)]
              [] r.k = "a" -> [req |-> <<>>, u |-> Activity(u)]
              [] r.k = "o" -> Sample(Activity(u), u.down, r.ms)
              [] OTHER -> [req |-> <<>>, u |-> u]
Wrong(r, n) ==
  IF r.k = "crash" THEN {"crash"}
  ELSE IF serial \/ (r.k = "N" /\ r.a = 1)
       THEN W(r.sw = 0, "storage") \cup
            (IF r.k = "c" THEN W(SerialOk(r.a, r.acts, r.rs, r.tr), "command") ELSE W(r.acts = <<>> /\ r.rs = 0 /\ r.tr = 0, "command"))
       ELSE UNION { W(r.acts = n.req, "request"), W(r.sw = 0 /\ r.rs = 0, "storage"),
                    W(YellowOk(n.u, r.y, r.ms), "yellow"), W(GreenOk(n.u, r.g), "green"),
                    \* activity is seen, however slow the main loop is
                    W(r.k = "o" => (r.a = 1 \/ r.g = 1), "green") }
Init == l = 1 /\ u = New /\ serial = FALSE /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l] IN
           IF r.t = skip THEN UNCHANGED <<u, serial, skip>>
           ELSE LET n == After(r) bad == Wrong(r, n)
                IN IF bad = {} THEN /\ u' = SeeYellow(n.u, r.y, r.ms) /\ serial' = (IF r.k = "N" THEN r.a = 1 ELSE serial) /\ UNCHANGED skip
                   ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, bad |-> SetToSeq(bad), want |-> [requests |-> n.req, leds |-> n.u]]))
                        /\ skip' = r.t /\ UNCHANGED <<u, serial>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
