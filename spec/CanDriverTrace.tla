--------------------------- MODULE CanDriverTrace ---------------------------
EXTENDS CanDriver, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d, spi, skip
vars == <<l, d, spi, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
\* the states the driver may be in after the record
After(r) == CASE r.k = "B" -> {Begin(d, r.a, r.a.code)}
              [] r.k = "F" -> {Arrive(d, r.a)}
              [] r.k = "L" -> {Fetch(d, Len(d.q))}
              [] r.k = "G" -> {Fetch(d, IF d.q = <<>> THEN 0 ELSE 1)}
              [] r.k = "S" -> {Sent(d, r.acc = 1)}
              [] r.k = "Z" -> Reset(d, r.a)
              [] OTHER -> {d}
Got(r) == CASE r.k = "L" -> d.q [] r.k = "G" -> SubSeq(d.q, 1, IF d.q = <<>> THEN 0 ELSE 1) [] OTHER -> <<>>
Inits(r, n) == IF r.k \in {"B", "Z"} THEN r.init # <<>> /\ \A i \in DOMAIN r.init : r.init[i] = Setup(n.conf) ELSE r.init = <<>>
Wrong(r, n) == UNION {
  W(r.got = Got(r), "received"), W(r.sent = IF r.k = "S" THEN <<r.a>> ELSE <<>>, "sent"),
  W(r.k = "S" => r.ok = r.acc, "result"), W(r.k = "B" => (r.ok = 1) = n.up, "begin"),
  W(Inits(r, n), "setup"), W(r.k = "B" => r.spi > spi, "spi"),
  W(r.c = <<n.rx, n.tx>>, "counters"), W(r.e = r.er, "errors"), W(r.bad = 0, "controller") }
Init == l = 1 /\ d = Down /\ spi = 0 /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l]
               Bad(s) == PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, k |-> r.k, bad |-> s, want |-> [waiting |-> d.q, counters |-> <<d.rx, d.tx>>, setup |-> Setup(d.conf)]])) /\ skip' = r.t /\ UNCHANGED <<d, spi>>
           IN IF r.t = skip THEN UNCHANGED <<d, spi, skip>>
              ELSE IF r.k = "N" THEN d' = Down /\ spi' = 0 /\ UNCHANGED skip
              ELSE IF r.k = "crash" THEN Bad(<<"crash">>)
              ELSE LET ns == After(r)
                       good == {n \in ns : Wrong(r, n) = {}}
                   IN IF good # {} THEN d' = (CHOOSE n \in good : TRUE) /\ spi' = r.spi /\ UNCHANGED skip
                      ELSE Bad(SetToSeq(Wrong(r, CHOOSE n \in ns : TRUE)))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
