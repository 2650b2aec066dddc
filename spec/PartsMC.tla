------------------------------- MODULE PartsMC -------------------------------
(* One part with everything the application was told and everything that       *)
(* really happened remembered.                                                   *)
EXTENDS Parts, FiniteSets, TLC, Json, IOUtils
CONSTANTS Kind, Ps, Ops, Steps, AgeCap, MaxTime, MaxOps
VARIABLES p, now, n,
          said,      \* button: changes reported since the last reset, in order (TRUE: pressed)
          looked,    \* button: what every run saw since the last reset
          since,     \* time of the latest reported change, restarted count or reset to 0
          wish,      \* lamp: on or off as last asked for (blinking aside)
          asked,     \* lamp: time of the latest pulse, -1 none
          inv        \* lamp: times of the inversions by blinking
vars == <<p, now, n, said, looked, since, wish, asked, inv>>
Edges == IOEnv.EDGES = "1"
Start == IF Edges THEN 1000 ELSE 600
Cap(x) == IF x > AgeCap THEN AgeCap ELSE x
Norm(q) == IF q.k = "s" THEN [q EXCEPT !.age = Cap(@), !.dur = Cap(@)] ELSE [q EXCEPT !.ba = Cap(@), !.pa = IF @ > 5 THEN 5 ELSE @]
Abs(q) == LET m == Norm(q) IN ToString(IF q.k = "s" THEN <<m.held, m.seen, m.last, m.ch, m.age, m.dur>>
                                      ELSE <<m.st, m.bl, m.pu, IF "b" \in Ops THEN m.ba ELSE 0, IF "u" \in Ops THEN m.pa ELSE 0, m.pin>>)
Note(lab, b, a) == IF Edges THEN PrintT("EDGE " \o ToJson(<<Abs(b), lab, Abs(a)>>)) ELSE TRUE
First == IF Kind = "s" THEN NewSwitch(Ps, FALSE, Start) ELSE NewLed(Start)

Init == /\ p = First /\ now = Start /\ n = 0 /\ said = <<>> /\ looked = <<>> /\ since = 0 /\ wish = FALSE /\ asked = -1 /\ inv = <<>>
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs(First), pre |-> <<"M 1000", IF Kind = "s" THEN "N 0 s " \o ToString(Ps) ELSE "N 0 l">>])) ELSE TRUE
Op(x) == LET q == Do(p, x, now) IN
  /\ p' = IF Edges THEN Norm(q) ELSE q
  /\ Note(x \o " 0", p, q) /\ n' = n + 1 /\ UNCHANGED now
  /\ IF Edges THEN UNCHANGED <<said, looked, since, wish, asked, inv>>
     ELSE /\ said' = IF x = "R" THEN <<>> ELSE IF x = "r" /\ Kind = "s" /\ q.ch THEN Append(said, q.seen) ELSE said
          /\ looked' = IF x = "R" THEN <<>> ELSE IF x = "r" /\ Kind = "s" THEN Append(looked, p.held) ELSE looked
          /\ since' = IF x = "R" THEN 0 ELSE IF x = "d" \/ (x = "r" /\ Kind = "s" /\ q.ch) THEN now ELSE since
          /\ wish' = CASE x = "1" -> TRUE [] x = "0" -> FALSE [] x = "t" -> ~p.st [] OTHER -> wish
          /\ asked' = IF x = "u" THEN now ELSE asked
          /\ inv' = IF x \in {"r", "u"} /\ Kind = "l" /\ q.st # p.st THEN Append(inv, now) ELSE inv
Time(ms) == LET q == Pass(p, ms) IN
  /\ Edges \/ now + ms <= Start + MaxTime
  /\ p' = IF Edges THEN Norm(q) ELSE q
  /\ now' = IF Edges THEN now ELSE now + ms
  /\ n' = n + 1
  /\ Note("p " \o ToString(ms), p, q) /\ UNCHANGED <<said, looked, since, wish, asked, inv>>
Next == (\E x \in Ops : Op(x)) \/ (\E ms \in Steps : Time(ms))
Spec == Init /\ [][Next]_vars
View == Abs(p)
Bound == n < MaxOps \/ Edges

\* ---- button
\* the changes reported are exactly the alternations in what the runs saw, starting from "not pressed"
Collapse(q) == LET prev(i) == IF i = 1 THEN FALSE ELSE q[i - 1] IN
               SelectSeq([i \in DOMAIN q |-> <<q[i], prev(i)>>], LAMBDA x : x[1] # x[2])
EveryChangeOnce == Kind = "s" => said = [i \in DOMAIN Collapse(looked) |-> Collapse(looked)[i][1]]
Alternate == \A i \in DOMAIN said : said[i] = (i % 2 = 1)
Ages == Kind = "s" => p.age = now - since
Lasted == [][(Kind = "s" /\ p'.ch /\ n' = n + 1 /\ said' # said /\ said' # <<>>) => p'.dur = now - since]_vars
\* ---- lamp
\* a lamp that is not blinking changes only when told to
Steady == [][(Kind = "l" /\ ~p.bl /\ p'.st # p.st) => p'.st = wish']_vars
Bright == (Kind = "l" /\ inv = <<>>) => p.st = wish
Regular == \A i \in 1..(Len(inv) - 1) : inv[i + 1] - inv[i] >= 500
Lit == Kind = "l" => (p.pin = 1 /\ p.pu => asked >= 0)
Driven == [][(Kind = "l" /\ p'.pin # p.pin) => p'.pin = IF p'.st \/ (asked' >= 0 /\ now - asked' < 5) THEN 1 ELSE 0]_vars
=============================================================================
