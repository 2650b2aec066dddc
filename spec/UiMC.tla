-------------------------------- MODULE UiMC --------------------------------
(* The button (FAM button) and the LEDs (FAM led) with everything that was     *)
(* pressed, released and requested remembered, at the real times.              *)
EXTENDS Ui, TLC, Json, IOUtils
Edges == IOEnv.EDGES = "1"
Button == IOEnv.FAM = "button"
VARIABLES u, press, samples, releases, asked, lastreq, quiet, dur
\* press: how long the button has really been down; asked: requests so far; quiet: ms for which yellow did not change
vars == <<u, press, samples, releases, asked, lastreq, quiet, dur>>
Steps == IF Button THEN {0, 499, 500, 999, 1000, 1999, 2000, 4000, 4001} ELSE {4, 250, 498}
Abs(x) == ToString(<<x.down, x.held, x.mode, x.pulse, x.y, IF x.mode = SETUP THEN x.age ELSE 0>>)
Note(l, b, a) == IF Edges THEN PrintT("EDGE " \o ToJson(<<Abs(b), l, Abs(a)>>)) ELSE TRUE
Init == /\ u = New /\ press = -1 /\ samples = 0 /\ releases = 0 /\ asked = 0 /\ lastreq = <<>> /\ quiet = 0 /\ dur = 0
        /\ IF Edges THEN PrintT("CONFIG " \o ToJson([s |-> Abs(New), pre |-> <<"N l">>])) ELSE TRUE
\* an LED driver: switches when half a second is over
Drive(v) == LET y == CASE v.mode = NORMAL -> 1 [] v.mode = UNINIT -> 0 [] v.mode = SETUP -> IF v.y = -1 THEN 0 ELSE IF v.age >= HALF THEN 1 - v.y ELSE v.y [] OTHER -> 0
            IN [y |-> y, u |-> IF v.mode = SETUP /\ y # v.y THEN [v EXCEPT !.y = y, !.age = 0, !.known = TRUE, !.late = 0] ELSE [v EXCEPT !.y = y, !.age = IF v.mode = SETUP THEN @ ELSE 0]]
Push(pin, ms) ==
  /\ Button => (pin /\ u.down => samples < 2)
  /\ LET s == Sample(u, pin, ms) d == Drive(s.u)
     IN /\ u' = d.u /\ lastreq' = s.req /\ asked' = (IF Edges THEN 0 ELSE asked + Len(s.req))
        /\ dur' = (IF u.down /\ ~pin THEN press + ms ELSE 0)
        /\ press' = (IF pin THEN IF u.down THEN press + ms ELSE 0 ELSE -1)
        /\ samples' = (IF pin /\ u.down THEN samples + 1 ELSE 0)
        /\ releases' = (IF Edges THEN 0 ELSE releases + (IF u.down /\ ~pin THEN 1 ELSE 0))
        /\ quiet' = (IF d.y = u.y THEN quiet + ms ELSE 0)
        /\ Note("b " \o (IF pin THEN "1 " ELSE "0 ") \o ToString(ms), u, u')
Set(m) == /\ u' = Drive(Indicate(u, m)).u /\ lastreq' = <<>> /\ quiet' = 0 /\ dur' = 0 /\ UNCHANGED <<press, samples, releases, asked>> /\ Note("m " \o ToString(m), u, u')
Act == /\ u' = Activity(u) /\ lastreq' = <<>> /\ dur' = 0 /\ UNCHANGED <<press, samples, releases, asked, quiet>> /\ Note("a", u, u')
Next == \/ \E ms \in Steps : Push(FALSE, ms) \/ (Button /\ Push(TRUE, ms))
        \/ (~Button \/ Edges) /\ \E m \in {UNINIT, SETUP, NORMAL} : (Button => m = NORMAL) /\ Set(m)
        \/ ~Button /\ Act
Spec == Init /\ [][Next]_vars
View == <<u, samples, press>>
Bound == releases < 4 /\ quiet < 1000
\* at most one request per release, none at any other time
OneEach == asked <= releases /\ Len(lastreq) <= 1
Press == u.down = (press >= 0) /\ (u.down => u.held = press)
RightOne == [][(u.down /\ ~u'.down) => /\ (lastreq' = <<CHANGE>>) = (dur' > 4000)
                                       /\ (lastreq' = <<RENEGOTIATE>>) = (dur' \in 1000..1999)
                                       /\ (lastreq' = <<ENUMERATE>>) = (dur' \in 0..499)]_vars
OnlyOnRelease == [][ ~(u.down /\ ~u'.down) => lastreq' = <<>> ]_vars
\* held beyond the limit: Setup is shown
HeldShows == (u.down /\ u.held > HOLD) => u.mode = SETUP
\* the yellow LED is never left standing in Setup, and is steady otherwise
Blinks == u.mode = SETUP => quiet < HALF + 499
Steady == (u.mode = NORMAL => u.y = 1) /\ (u.mode = UNINIT => u.y = 0)
=============================================================================
