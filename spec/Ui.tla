--------------------------------- MODULE Ui ---------------------------------
(***************************************************************************)
(* P25, P26: push button, serial commands and LEDs.                          *)
(*   u  down, held     the button as last sampled, and since how many ms      *)
(*      mode           what the LEDs show: 0 uninitialised, 1 setup, 2 normal,*)
(*                     -1 nothing yet                                         *)
(*      pulse          ms since the last activity (-1: long ago)              *)
(*      y, age, known, late   the yellow LED as last seen; ms since it was    *)
(*                     switched (or since Setup was entered: not known), and  *)
(*                     how late that may have been seen                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
NORMAL == 2  SETUP == 1  UNINIT == 0
CHANGE == 1  RENEGOTIATE == 2  ENUMERATE == 3
HOLD == 4000  HALF == 500  SLACK == 5
Cap(x) == IF x > 100000 THEN 100000 ELSE x

New == [down |-> FALSE, held |-> 0, mode |-> -1, pulse |-> -1, y |-> -1, age |-> 0, known |-> FALSE, late |-> 0]

\* what releasing the button after d ms requests
Requests(d) == IF d > HOLD THEN <<CHANGE>>
               ELSE IF d >= 1000 /\ d < 2000 THEN <<RENEGOTIATE>>
               ELSE IF d < 500 THEN <<ENUMERATE>> ELSE <<>>
Aged(u, ms) == [u EXCEPT !.held = IF u.down THEN Cap(@ + ms) ELSE 0, !.age = IF u.mode = SETUP THEN Cap(@ + ms) ELSE 0, !.pulse = IF @ = -1 \/ @ + ms > 7 THEN -1 ELSE @ + ms]
Show(u, m) == [u EXCEPT !.mode = m, !.age = 0, !.known = FALSE, !.late = 0]
\* the button is sampled, ms after the last time
Sample(u, pin, ms) ==
  LET w == Aged(u, ms)
      req == IF u.down /\ ~pin THEN Requests(w.held) ELSE <<>>
      v == [w EXCEPT !.down = pin, !.held = IF pin /\ u.down THEN @ ELSE 0]
  IN [req |-> req, u |-> IF v.down /\ v.held > HOLD /\ v.mode # SETUP THEN Show(v, SETUP) ELSE v]
Indicate(u, m) == LET v == Show(u, m) IN IF v.down /\ v.held > HOLD /\ m # SETUP THEN Show(v, SETUP) ELSE v
Activity(u) == [u EXCEPT !.pulse = 0]

\* the yellow LED y, seen ms after it was last looked at (u: with the time added)
MayToggle(u) == ~u.known \/ u.age + u.late >= HALF - SLACK
MustToggle(u) == u.age > HALF + SLACK
YellowOk(u, y, ms) == CASE u.mode = NORMAL -> y = 1
                        [] u.mode = UNINIT -> y = 0
                        [] u.mode = SETUP -> \/ ms >= HALF - SLACK \/ u.y = -1
                                             \/ IF y = u.y THEN ~MustToggle(u) ELSE MayToggle(u)
                        [] OTHER -> TRUE
SeeYellow(u, y, ms) == IF u.mode = SETUP /\ (y # u.y \/ ms >= HALF - SLACK)
                       THEN [u EXCEPT !.y = y, !.age = 0, !.known = ms < HALF - SLACK, !.late = ms] ELSE [u EXCEPT !.y = y]
Base(u) == IF u.mode = UNINIT THEN 1 ELSE 0
GreenOk(u, g) == IF u.mode = -1 THEN TRUE
                 ELSE IF u.pulse \in 0..3 THEN g = 1
                 ELSE u.pulse \in 4..7 \/ g = Base(u)

\* serial input: 's' requests a mode change, '*' restarts, 'y' may reset the transport; nothing else has an effect
Count(s, x) == LET RECURSIVE n(_) n(i) == IF i = 0 THEN 0 ELSE n(i - 1) + (IF s[i] = x THEN 1 ELSE 0) IN n(Len(s))
SerialOk(chars, acts, restarts, resets) == acts = [i \in 1..Count(chars, 115) |-> CHANGE] /\ restarts = Count(chars, 42) /\ resets <= Count(chars, 121)
=============================================================================
