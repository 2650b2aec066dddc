---------------------------- MODULE CanDriverMC ----------------------------
(* The driver as it is built: the controller (hw), the controller library's    *)
(* receive buffer (lib) filled by the interrupt routine or by polling, and the  *)
(* handler the interrupt line is attached to.  The driver refines CanDriver.    *)
EXTENDS CanDriver, TLC, Json, IOUtils
CONSTANTS MaxArrive, MaxSend, MaxReset
Edges == IOEnv.EDGES = "1"
VARIABLES d, hw, lib, inst, handler, arrived, got, asked, acc, resets
\* inst: the controller object in use; handler: the object the interrupt routine serves, 0 for none
vars == <<d, hw, lib, inst, handler, arrived, got, asked, acc, resets>>
Frames == {"1418 0 0 9001020304", "0 0 0 -", "2047 0 1 -", "536870911 1 0 FF00FF00FF00FF80", "65536 1 0 05", "305419896 1 1 -", "127 0 0 0102030405060708"}
Abs(x, i) == ToString(<<i > 0, x.up, x.conf.poll, Len(x.q)>>)
Note(l) == IF Edges THEN PrintT("EDGE " \o ToJson(<<Abs(d, inst), l, Abs(d', inst')>>)) ELSE TRUE
Ask(p) == [poll |-> p, osc |-> -1, cs |-> -1, pin |-> -1, rx |-> -1, tx |-> -1]
Init == /\ d = Down /\ hw = <<>> /\ lib = <<>> /\ inst = 0 /\ handler = 0 /\ arrived = <<>> /\ got = <<>> /\ asked = 0 /\ acc = 0 /\ resets = 0
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs(Down, 0), pre |-> <<"N">>])) ELSE TRUE
Start(p, code) == /\ resets < MaxReset /\ resets' = (IF Edges THEN 0 ELSE resets + 1)
                  /\ d' = Begin(d, Ask(p), code) /\ hw' = <<>> /\ lib' = <<>>
                  /\ inst' = (IF Edges THEN 1 ELSE inst + 1) /\ handler' = (IF p = 0 /\ code = 0 THEN inst' ELSE 0)
                  /\ arrived' = <<>> /\ got' = <<>> /\ acc' = 0 /\ UNCHANGED asked
                  /\ Note("B " \o ToString(p) \o " - - - - - " \o ToString(code))
Zap(code) == /\ inst > 0 /\ resets < MaxReset /\ resets' = (IF Edges THEN 0 ELSE resets + 1)
             /\ \E n \in Reset(d, code) : d' = n /\ (Edges => n.rx = d.rx) /\ IF n.rx = d.rx /\ n.tx = d.tx THEN UNCHANGED <<acc>> /\ arrived' = got /\ UNCHANGED got ELSE acc' = 0 /\ arrived' = <<>> /\ got' = <<>>
             /\ hw' = <<>> /\ lib' = <<>> /\ inst' = (IF Edges THEN 1 ELSE inst + 1) /\ handler' = (IF d.conf.poll = 0 /\ code = 0 THEN inst' ELSE 0)
             /\ UNCHANGED asked
             /\ Note("Z " \o ToString(code))
In(f) == /\ d.up /\ Len(arrived) < MaxArrive /\ (Edges => Len(d.q) < 3) /\ d' = Arrive(d, f)
         /\ IF handler = inst THEN lib' = lib \o hw \o <<f>> /\ hw' = <<>> ELSE hw' = Append(hw, f) /\ UNCHANGED lib
         /\ arrived' = (IF Edges THEN <<>> ELSE Append(arrived, f)) /\ UNCHANGED <<inst, handler, got, asked, acc, resets>>
         /\ Note("F " \o f)
\* available() polls where there is no interrupt, receive() takes the oldest
Take(all) == LET l == IF d.conf.poll = 1 THEN lib \o hw ELSE lib
                 n == IF all THEN Len(l) ELSE IF l = <<>> THEN 0 ELSE 1
             IN /\ inst > 0 /\ hw' = (IF d.conf.poll = 1 THEN <<>> ELSE hw) /\ lib' = SubSeq(l, n + 1, Len(l))
                /\ got' = (IF Edges THEN <<>> ELSE got \o SubSeq(l, 1, n))
                /\ d' = (IF Edges THEN [Fetch(d, n) EXCEPT !.rx = 0] ELSE Fetch(d, n))
                /\ UNCHANGED <<inst, handler, arrived, asked, acc, resets>>
                /\ Note(IF all THEN "L" ELSE "G")
Out(f, ok) == /\ d.up /\ asked < MaxSend /\ asked' = (IF Edges THEN 0 ELSE asked + 1) /\ d' = (IF Edges THEN d ELSE Sent(d, ok)) /\ acc' = (IF ok /\ ~Edges THEN acc + 1 ELSE acc)
              /\ UNCHANGED <<hw, lib, inst, handler, arrived, got, resets>>
              /\ Note("S " \o f \o (IF ok THEN " 1" ELSE " 0"))
Some == IF Edges THEN Frames ELSE {"1418 0 0 9001020304", "0 0 0 -"}
Next == \/ \E p \in {0, 1}, code \in {0, 1, 256} : (inst = 0 \/ ~d.up) /\ Start(p, code)
        \/ \E code \in {0, 4} : Zap(code)
        \/ \E f \in Some : In(f) \/ \E ok \in BOOLEAN : Out(f, ok)
        \/ \E all \in BOOLEAN : Take(all)
Spec == Init /\ [][Next]_vars
View == <<d.up, d.conf.poll, Len(d.q), inst, handler>>
\* everything that arrived is delivered, once and in order, or still waits
Whole == d.up => arrived = got \o lib \o hw /\ d.q = lib \o hw
Counted == d.rx = Len(got) /\ d.tx = acc
\* in interrupt mode nothing is left behind in the controller
Served == (d.up /\ d.conf.poll = 0) => hw = <<>> /\ handler = inst
=============================================================================
