------------------------------ MODULE RingTrace ------------------------------
EXTENDS Ring, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r, skip
vars == <<l, r, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
After(e) == CASE e.k = "N" -> New(e.v) [] e.k = "p" -> Put(r, e.v) [] e.k = "g" -> IF Avail(r) THEN Pop(r) ELSE r [] e.k = "c" -> Clear(r) [] OTHER -> r
Wrong(e, n) == IF e.k = "crash" THEN {"crash"} ELSE
  UNION { W(e.k = "g" => (Avail(r) /\ e.v = PeekAt(r)), "pop"),
          W(e.k = "k" => e.v = IF Avail(r) THEN PeekAt(r) ELSE -1, "peek"),
          W((e.av = 1) = Avail(n), "available"),
          W(e.pk = IF Avail(n) THEN PeekAt(n) ELSE -1, "next"),
          W([i \in 1..4 |-> e.st[i] % 256] = Counts(n), "counts") }
Init == l = 1 /\ r = New(1) /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.t = skip THEN UNCHANGED <<r, skip>>
           ELSE LET n == After(e) bad == Wrong(e, n)
                IN IF bad = {} THEN r' = n /\ UNCHANGED skip
                   ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> e.t, line |-> l, bad |-> SetToSeq(bad), want |-> [next |-> IF Avail(n) THEN PeekAt(n) ELSE -1, counts |-> Counts(n)]]))
                        /\ skip' = e.t /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
