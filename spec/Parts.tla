-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* P35: push buttons (Switch) and lamps (LED) as the application uses them.   *)
(* Both only do something when the application runs them.                      *)
(* Times are kept as ages (ms since) so that the model needs no clock.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* ------------------------------------------------------------ push button
\* held: the button is down now; seen: what the latest look saw; last: what it was compared with;
\* ch: the latest run saw a change; age: since the latest change (or since time 0, or since the application
\* restarted the count); dur: how long the state before the latest change lasted
NewSwitch(ps, held, now) == [k |-> "s", ps |-> ps, held |-> held, seen |-> held, last |-> FALSE, ch |-> FALSE, age |-> now, dur |-> 0]
Hold(s, h) == [s EXCEPT !.held = h]
RunSwitch(s) == IF s.held # s.last
                THEN [s EXCEPT !.seen = s.held, !.last = s.held, !.ch = TRUE, !.dur = s.age, !.age = 0]
                ELSE [s EXCEPT !.seen = s.held, !.ch = FALSE]
ResetSwitch(s, now) == [s EXCEPT !.last = FALSE, !.ch = FALSE, !.age = now, !.dur = 0]
Recount(s) == [s EXCEPT !.age = 0]

\* ------------------------------------------------------------------- lamp
\* st: on or off; bl: blinking; pu: pulse; ba: age of the latest blink inversion; pa: age of the pulse; pin: output (-1 never driven)
NewLed(now) == [k |-> "l", st |-> FALSE, bl |-> FALSE, pu |-> FALSE, ba |-> now, pa |-> 0, pin |-> -1]
On(d) == [d EXCEPT !.st = TRUE, !.bl = FALSE]
Off(d) == [d EXCEPT !.st = FALSE, !.bl = FALSE]
Toggle(d) == [d EXCEPT !.st = ~@]
Blink(d) == [d EXCEPT !.bl = TRUE]
RunLed(d) == LET inv == d.bl /\ d.ba >= 500
                 st == IF inv THEN ~d.st ELSE d.st
                 pu == d.pu /\ d.pa < 5
             IN [d EXCEPT !.st = st, !.ba = IF inv THEN 0 ELSE @, !.pu = pu, !.pin = IF st \/ pu THEN 1 ELSE 0]
Pulse(d) == RunLed([d EXCEPT !.pu = TRUE, !.pa = 0])

Pass(p, ms) == IF p.k = "s" THEN [p EXCEPT !.age = @ + ms] ELSE [p EXCEPT !.ba = @ + ms, !.pa = @ + ms]
Run(p) == IF p.k = "s" THEN RunSwitch(p) ELSE RunLed(p)
Do(p, op, now) ==
  CASE op = "r" -> Run(p)
    [] op = "R" -> ResetSwitch(p, now)
    [] op = "d" -> Recount(p)
    [] op = "h" -> Hold(p, TRUE)
    [] op = "f" -> Hold(p, FALSE)
    [] op = "1" -> On(p)
    [] op = "0" -> Off(p)
    [] op = "t" -> Toggle(p)
    [] op = "b" -> Blink(p)
    [] op = "u" -> Pulse(p)
SwitchOps == {"r", "R", "d", "h", "f"}
LedOps == {"r", "1", "0", "t", "b", "u"}

\* what the application can observe
Seen(p, now) ==
  IF p.k = "s" THEN <<IF p.seen THEN p.ps ELSE 1 - p.ps, IF p.seen THEN 1 ELSE 0, IF p.ch THEN 1 ELSE 0, p.age, p.dur, now - p.age>>
  ELSE <<IF p.st THEN 1 ELSE 0, p.pin>>
=============================================================================
