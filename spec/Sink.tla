--------------------------------- MODULE Sink --------------------------------
(* One Serializer over a writer.  The state of the interaction and how each    *)
(* observable event changes it: API calls, what the serializer asks the writer  *)
(* for, what the writer answers, and what the call returns.  Any buffering is   *)
(* allowed; what is fixed is which bytes may be offered, when they must have    *)
(* been delivered, and where a failure shows.                                   *)
(*   acc    bytes the writer has accepted                                       *)
(*   req    bytes of all documents written completely                           *)
(*   cur    the call in progress ("" when there is none)                        *)
(*   pend   "" or the failure that the call in progress must report             *)
(*   fresh  the writer was flushed after its last write                         *)
(*   over   no further call may follow (an error, or the serializer is gone)    *)
EXTENDS Naturals, Integers, Sequences
NewSink == [acc |-> 0, req |-> 0, cur |-> "", pend |-> "", fresh |-> TRUE, over |-> FALSE]

\* A call begins.  refused: the document it writes cannot be written.
CanCall(s) == s.cur = "" /\ ~s.over
Call(s, c, refused) == [s EXCEPT !.cur = c, !.pend = IF refused THEN "data" ELSE ""]

\* The writer is offered n bytes and answers r: it takes k of them, was
\* interrupted, takes nothing any more, or fails.
CanWrite(s, n, fits) == s.cur # "" /\ s.pend \in {"", "data"} /\ n > 0 /\ fits
Write(s, r, k) ==
    CASE r = "ok"   -> [s EXCEPT !.acc = @ + k, !.fresh = FALSE]
      [] r = "intr" -> s
      [] r = "zero" -> [s EXCEPT !.pend = "zero"]
      [] r = "err"  -> [s EXCEPT !.pend = "err"]
\* The writer is asked to flush and answers.
CanFlush(s) == s.cur # "" /\ s.pend \in {"", "data"}
Flush(s, r) == IF r = "ok" THEN [s EXCEPT !.fresh = TRUE] ELSE [s EXCEPT !.pend = "err"]

\* The call returns.  need: the length of the output up to here; tail: what an
\* open-ended last document may be followed by when the stream ends.
CanReturn(s, ok, why, need, tail) ==
    /\ s.cur # ""
    /\ ok <=> s.pend = ""                        \* a failure surfaces, and nothing else fails
    /\ ~ok => why = s.pend                       \* as what it is
    /\ ok /\ s.cur \in {"ser", "to_writer"} => s.acc = need
    /\ ok /\ s.cur = "flush"  => s.acc = s.req /\ s.fresh
    /\ ok /\ s.cur = "finish" => s.acc \in {s.req, s.req + tail}
    /\ s.cur = "drop" => ok
Return(s, ok, need) ==
    [s EXCEPT !.cur = "", !.pend = "",
              !.req = IF ok /\ s.cur \in {"ser", "to_writer"} THEN need ELSE @,
              !.over = ~ok \/ s.cur \in {"finish", "drop", "to_writer"}]
=============================================================================
