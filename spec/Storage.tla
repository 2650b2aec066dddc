------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* P29: what a storage backend remembers.  m maps an address to the byte      *)
(* last written there; addresses not in its domain hold 255 (erased).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
ERASED == 255
\* the identity of the module, which a reset may keep
HEADER == 10
Blank == [a \in {} |-> 0]
At(m, a) == IF a \in DOMAIN m THEN m[a] ELSE ERASED
Put(m, a, d) == [i \in a..(a + Len(d) - 1) |-> d[i - a + 1]] @@ m
Get(m, a, n) == [i \in 1..n |-> At(m, a + i - 1)]
\* what a change from m to n looks like from outside
Changes(m, n) == {<<a, At(n, a)>> : a \in {a \in DOMAIN m \cup DOMAIN n : At(m, a) # At(n, a)}}
Only(m, S) == [a \in DOMAIN m \cap S |-> m[a]]
\* the bytes before hdr may be kept or erased; bytes from `reach` on are out of reach of the reset
Resets(m, hdr, reach) == {Only(m, keep \cup {a \in DOMAIN m : a >= reach}) : keep \in SUBSET {a \in DOMAIN m : a < hdr}}
=============================================================================
