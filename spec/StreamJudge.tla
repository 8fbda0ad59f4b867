----------------------------- MODULE StreamJudge -----------------------------
(* Recorded streams of larger documents, each item read as a type of its own    *)
(* in some order.                                                               *)
EXTENDS Judge, Stream
I == Inputs[at]
\* The history: all items are fetched, then read in the order given.
RECURSIVE Fetch(_, _, _)
Fetch(it, ps, n) == IF n = 0 THEN <<>>
                    ELSE LET s == Step(it, ps, I.src = "fail")
                         IN  <<[a |-> "next", r |-> s.item]>> \o Fetch(s.it, ps, n - 1)
Hist == LET f == Fetch(NewIter, I.pieces, Len(I.pieces) + 1) IN
        f \o [k \in 1..Len(I.order) |->
                LET i == I.order[k] IN
                [a |-> "read", i |-> i, s |-> I.types[i], doc |-> f[i].r, r |-> ReadItem(I.pieces, f[i].r, I.types[i])]]
Emit == PrintT("@C" \o ToJson([op |-> "stream", pieces |-> I.pieces, src |-> I.src, hist |-> Hist]))
=============================================================================
