----------------------------- MODULE CanDriver -----------------------------
(***************************************************************************)
(* P33: the CAN controller driver, between the controller and the library.   *)
(* d: up, conf (how it was set up), q (frames that arrived and were not       *)
(*    handed over yet), rx and tx (frames handed over, frames sent).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Defaults == [poll |-> 0, osc |-> 16000000, cs |-> 10, pin |-> 2, rx |-> 4, tx |-> 2]
Down == [up |-> FALSE, conf |-> Defaults, q |-> <<>>, rx |-> 0, tx |-> 0]
\* a: what the sketch asks for, -1 for what it leaves alone
Configured(c, a) == [poll |-> a.poll, osc |-> IF a.osc >= 0 THEN a.osc ELSE c.osc, cs |-> IF a.cs >= 0 THEN a.cs ELSE c.cs, pin |-> IF a.cs >= 0 THEN a.pin ELSE c.pin,
                     rx |-> IF a.rx >= 0 THEN a.rx ELSE c.rx, tx |-> IF a.rx >= 0 THEN a.tx ELSE c.tx]
\* how the controller has to be set up; in polling mode it has no interrupt pin
Setup(c) == [cs |-> c.cs, pin |-> IF c.poll = 1 THEN 255 ELSE c.pin, spi |-> 1, osc |-> c.osc, rate |-> 125000, normal |-> 1, rx |-> c.rx, tx |-> c.tx]
Begin(d, a, code) == [Down EXCEPT !.conf = Configured(d.conf, a), !.up = code = 0]
Arrive(d, f) == IF d.up THEN [d EXCEPT !.q = Append(@, f)] ELSE d
Fetch(d, n) == [d EXCEPT !.q = SubSeq(@, n + 1, Len(@)), !.rx = @ + n]
Sent(d, ok) == IF ok THEN [d EXCEPT !.tx = @ + 1] ELSE d
\* what had not been handed over is lost; the counts go on or start again
Reset(d, code) == {[d EXCEPT !.up = code = 0, !.q = <<>>], [d EXCEPT !.up = code = 0, !.q = <<>>, !.rx = 0, !.tx = 0]}
=============================================================================
