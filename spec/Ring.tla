-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* P15: a bounded FIFO that drops only its oldest entry, and its counts.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* r: capacity, contents (oldest first), puts, gets, overflows, high-water mark
New(cap) == [cap |-> cap, q |-> <<>>, puts |-> 0, gets |-> 0, ovf |-> 0, hwm |-> 0]
Avail(r) == r.q # <<>>
PeekAt(r) == Head(r.q)
Put(r, v) ==
  LET full == Len(r.q) = r.cap
      q == Append(IF full THEN Tail(r.q) ELSE r.q, v)
  IN [r EXCEPT !.q = q, !.puts = @ + 1, !.ovf = @ + (IF full THEN 1 ELSE 0), !.hwm = IF Len(q) > @ THEN Len(q) ELSE @]
Pop(r) == [r EXCEPT !.q = Tail(@), !.gets = @ + 1]      \* only when Avail
Clear(r) == [r EXCEPT !.q = <<>>]
Counts(r) == <<r.puts % 256, r.gets % 256, r.ovf % 256, r.hwm % 256>>
=============================================================================
