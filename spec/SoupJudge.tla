------------------------------ MODULE SoupJudge ------------------------------
(* Observations of the real crate, each judged by the contract.                 *)
EXTENDS Judge, Soup
CONSTANT Clauses        \* the clauses of the contract to be judged
Broken(t) == BrokenOf(t, Clauses)
I == Inputs[at]
Emit == PrintT("@C" \o ToJson([ok |-> Broken(I) = <<>>, at |-> Broken(I), id |-> at]))
=============================================================================
