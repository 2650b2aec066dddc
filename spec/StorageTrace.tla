---------------------------- MODULE StorageTrace ----------------------------
EXTENDS Storage, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, size, skip
vars == <<l, m, size, skip>>
W(ok, name) == IF ok THEN {} ELSE {name}
LIBRARY == 4096    \* the library looks after this much of a device
Obs(r) == {r.ch[i] : i \in DOMAIN r.ch}
After(r) == IF r.k \in {"W", "w"} THEN Put(m, r.a, r.d) ELSE m
\* for a reset: every address is erased, except that those of the header may be as before
ResetOk(r, reach) == LET obs == Obs(r)
                         left == {a \in DOMAIN m : m[a] # ERASED /\ a >= HEADER /\ a < reach}
                     IN /\ \A c \in obs : c[2] = ERASED /\ At(m, c[1]) # ERASED
                        /\ \A a \in left : <<a, ERASED>> \in obs
Wrong(r) == CASE r.k = "crash" -> {"crash"}
              [] r.k = "Z" -> W(ResetOk(r, LIBRARY), "reset") \cup W(r.bad = 0, "device")
              [] OTHER -> W(Obs(r) = Changes(m, After(r)), IF r.k \in {"N", "X"} THEN "restart" ELSE "contents") \cup W(r.bad = 0, "device")
                          \cup W(r.k \in {"r", "R"} => r.got = Get(m, r.a, r.n), "read")
Init == l = 1 /\ m = Blank /\ size = 0 /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l] IN
           IF r.t = skip THEN UNCHANGED <<m, size, skip>>
           ELSE IF r.k = "N" /\ r.ch = <<>> /\ r.bad = 0 THEN m' = Blank /\ size' = r.size /\ UNCHANGED skip
           ELSE LET bad == Wrong(r)
                IN IF bad = {} THEN /\ m' = IF r.k = "Z" THEN LET gone == {r.ch[i][1] : i \in DOMAIN r.ch} IN Only(m, DOMAIN m \ gone) ELSE After(r)
                                    /\ (r.k = "Z" /\ ~ResetOk(r, size) => PrintT("NOTE " \o ToJson([t |-> r.t, what |-> "beyond-4096"])))
                                    /\ UNCHANGED <<skip, size>>
                   ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> r.t, line |-> l, k |-> r.k, bad |-> SetToSeq(bad), want |-> IF r.k = "Z" THEN <<>> ELSE SetToSeq(Changes(m, After(r)))]))
                        /\ skip' = r.t /\ UNCHANGED <<m, size>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
