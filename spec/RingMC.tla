------------------------------- MODULE RingMC -------------------------------
(* Ring with everything that was ever put, taken and lost remembered.         *)
EXTENDS Ring, FiniteSets, TLC, Json, IOUtils
CONSTANTS Cap, MaxPuts
VARIABLES r, got, lost, cleared, last
vars == <<r, got, lost, cleared, last>>
Edges == IOEnv.EDGES = "1"
\* for the transition graph entries are numbers modulo a small base
Base == IF Edges THEN Cap + 2 ELSE 1000
Val == (r.puts + 1) % Base
Abs(x) == ToString(<<x.q, x.puts % Base>>)
Note(l, b, a) == IF Edges THEN PrintT("EDGE " \o ToJson(<<Abs(b), l, Abs(a)>>)) ELSE TRUE

Init == /\ r = New(Cap) /\ got = <<>> /\ lost = <<>> /\ cleared = {} /\ last = "new"
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs(New(Cap)), pre |-> <<"N " \o ToString(Cap)>>])) ELSE TRUE
Go(n, l) == r' = n /\ last' = l /\ Note(l, r, n)
DoPut == /\ (Edges \/ r.puts < MaxPuts)
         /\ Go(Put(r, Val), "p " \o ToString(Val))
         /\ lost' = IF Len(r.q) = r.cap THEN Append(lost, Head(r.q)) ELSE lost
         /\ UNCHANGED <<got, cleared>>
DoPop == Avail(r) /\ Go(Pop(r), "g") /\ got' = Append(got, PeekAt(r)) /\ UNCHANGED <<lost, cleared>>
DoPeek == Go(r, "k") /\ UNCHANGED <<got, lost, cleared>>
DoClear == Go(Clear(r), "c") /\ cleared' = cleared \cup Range(r.q) /\ UNCHANGED <<got, lost>>
Next == DoPut \/ DoPop \/ DoPeek \/ DoClear
Spec == Init /\ [][Next]_vars
View == <<r.q, r.puts % Base>>

Rising(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
\* every entry is exactly one of: still there, taken, lost, cleared - and taken in order
Accounted == /\ Rising(got \o r.q) /\ Rising(lost)
             /\ Range(got) \cup Range(lost) \cup cleared \cup Range(r.q) = 1..r.puts
             /\ Len(got) + Len(lost) + Cardinality(cleared) + Len(r.q) = r.puts
Numbers == r.gets = Len(got) /\ r.ovf = Len(lost) /\ Len(r.q) <= r.cap /\ r.hwm <= r.cap
OldestOnly == [][\A k \in (Len(lost) + 1)..Len(lost') : Len(r.q) = r.cap /\ lost'[k] = Head(r.q) /\ lost'[k] < Head(r'.q)]_vars
HighWater == [][r'.hwm = IF Len(r'.q) > r.hwm THEN Len(r'.q) ELSE r.hwm]_vars
=============================================================================
