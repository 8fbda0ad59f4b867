------------------------------- MODULE SoupGen -------------------------------
(* All texts made of up to MaxLen pieces of a vocabulary of N pieces.           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, MaxLen
VARIABLE toks
Init == toks = <<>>
Next == Len(toks) < MaxLen /\ \E i \in 1..N : toks' = Append(toks, i)
Spec == Init /\ [][Next]_toks
Emit == PrintT("@C" \o ToJson([op |-> "soup", toks |-> toks]))
=============================================================================
