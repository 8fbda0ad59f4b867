------------------------------ MODULE StreamGen ------------------------------
(* Every stream over a pool of pieces and every history of iterating over it,  *)
(* reading the items in any order, reading into them, dropping them, and        *)
(* reading the deserializer itself.                                             *)
EXTENDS Stream, SequencesExt
CONSTANTS Pool,      \* sequence of pieces
          MaxDocs, MaxHist,
          Sources,   \* subset of {"str", "slice", "read", "fail"}
          Use        \* numbers of target types
VARIABLES pick, src, it, items, hist, gone

Schemas == TLCEval(ndJsonDeserialize(IOEnv.SCHEMAS))
Pieces == [i \in 1..Len(pick) |-> Pool[pick[i]]]
fails  == src = "fail"

Init == /\ pick \in UNION {[1..n -> 1..Len(Pool)] : n \in 0..MaxDocs}
        /\ \A i \in 1..Len(pick) : Pool[pick[i]].kind = "broken" => i = Len(pick) \/ i = Len(pick) - 1
        /\ src \in Sources
        /\ it = NewIter /\ items = <<>> /\ hist = <<>> /\ gone = FALSE

More == ~gone /\ Len(hist) < MaxHist
\* items: number of the document (or -1), or 0 once read or dropped
Advance ==
    /\ More
    /\ LET n == Step(it, Pieces, fails) IN
       /\ it' = n.it
       /\ items' = IF n.item = 0 THEN items ELSE Append(items, n.item)
       /\ hist' = Append(hist, [a |-> "next", r |-> n.item])
    /\ UNCHANGED <<pick, src, gone>>
Read(i, s) ==
    /\ More /\ items[i] # 0
    /\ hist' = Append(hist, [a |-> "read", i |-> i, s |-> s, doc |-> items[i], r |-> ReadItem(Pieces, items[i], Schemas[s])])
    /\ items' = [items EXCEPT ![i] = 0]
    /\ UNCHANGED <<pick, src, it, gone>>
\* An item is a deserializer too: iterating over it yields nothing (or the error again).
Into(i) ==
    /\ More /\ items[i] # 0
    /\ hist' = Append(hist, [a |-> "into", i |-> i, r |-> IF items[i] = -1 THEN -1 ELSE 0])
    /\ UNCHANGED <<pick, src, it, items, gone>>
Drop(i) ==
    /\ More /\ items[i] # 0
    /\ hist' = Append(hist, [a |-> "drop", i |-> i])
    /\ items' = [items EXCEPT ![i] = 0]
    /\ UNCHANGED <<pick, src, it, gone>>
Rest(s) ==
    /\ More
    /\ hist' = Append(hist, [a |-> "rest", s |-> s, r |-> ReadRest(it, Pieces, fails, Schemas[s])])
    /\ gone' = TRUE
    /\ UNCHANGED <<pick, src, it, items>>

Next == \/ Advance
        \/ \E i \in 1..Len(items) : Into(i) \/ Drop(i) \/ \E s \in Use : Read(i, s)
        \/ \E s \in Use : Rest(s)
Spec == Init /\ [][Next]_<<pick, src, it, items, hist, gone>>

(* --- properties of the model (C07) --- *)
Nexts == SelectSeq(hist, LAMBDA h : h.a = "next")
\* One item per document, in order, then nothing; after a broken piece and
\* after a failing source errors only.
InOrder == \A i \in 1..Len(Nexts) :
    LET r == Nexts[i].r
        ds == Documents(Pieces)
    IN  IF fails THEN r = -1
        ELSE IF i <= Len(ds) THEN r = i
        ELSE IF ds[Len(ds)].kind = "broken" THEN r = Len(ds) ELSE r = 0
\* What is read from an item does not depend on the history.
Independent == \A i \in 1..Len(hist) :
    hist[i].a = "read" /\ hist[i].doc # -1 /\ Len(pick) > 0 =>
        LET p == Pool[pick[hist[i].doc]] IN hist[i].r = Single(<<p>>, Schemas[hist[i].s])
\* Nothing but a stream of exactly one good document is read as one.
NothingIgnored == gone /\ hist[Len(hist)].r.k # "err" =>
    Len(hist) = 1 /\ Len(Documents(Pieces)) = 1 /\ Documents(Pieces)[1].kind # "broken" /\ ~fails

Emit == (gone \/ Len(hist) = MaxHist) =>
    PrintT("@C" \o ToJson([op |-> "stream", pieces |-> Pieces, src |-> src, hist |-> hist]))
=============================================================================
