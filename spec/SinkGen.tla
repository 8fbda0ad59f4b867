------------------------------- MODULE SinkGen -------------------------------
(* All histories of a Serializer with up to MaxDocs documents of 1 or more     *)
(* units over a writer that may shorten, interrupt, stop and fail, with any     *)
(* buffering inside the serializer.  Emits the environment: the calls and the   *)
(* writer's answers to writes and to flushes, failures of every kind.           *)
EXTENDS Sink, TLC, Json
CONSTANTS Docs,         \* the pool: sequence of [size, refused]
          MaxDocs, MaxAnswers,
          Kinds         \* the kinds of failure
VARIABLES s, need, hist, answers, buf,  \* buf: bytes handed to the serializer
          flushes
vars == <<s, need, hist, answers, buf, flushes>>
Init == s = NewSink /\ need = 0 /\ hist = <<>> /\ answers = <<>> /\ buf = 0 /\ flushes = <<>>
Ser(d) ==
    /\ CanCall(s) /\ Len(SelectSeq(hist, LAMBDA h : h.c = "ser")) < MaxDocs
    /\ s' = Call(s, "ser", Docs[d].refused)
    /\ need' = need + Docs[d].size
    /\ buf' = need'
    /\ hist' = Append(hist, [c |-> "ser", d |-> d])
    /\ UNCHANGED <<answers, flushes>>
One(d) ==
    /\ CanCall(s) /\ hist = <<>>
    /\ s' = Call(s, "to_writer", Docs[d].refused)
    /\ need' = Docs[d].size
    /\ buf' = need'
    /\ hist' = Append(hist, [c |-> "to_writer", d |-> d])
    /\ UNCHANGED <<answers, flushes>>
Other(c) ==
    /\ CanCall(s) /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].c # c)
    /\ s' = Call(s, c, FALSE) /\ hist' = Append(hist, [c |-> c, d |-> 0])
    /\ UNCHANGED <<need, answers, buf, flushes>>
\* Any nonempty piece of what was handed over may be offered.
Offer(n, r, k, kind) ==
    /\ CanWrite(s, n, s.acc + n <= buf) /\ Len(answers) < MaxAnswers
    /\ s' = Write(s, r, k)
    /\ answers' = Append(answers, [r |-> r, k |-> k, kind |-> kind])
    /\ UNCHANGED <<need, hist, buf, flushes>>
\* After the answers given here the writer is a good one.
Settle ==
    /\ s.cur # "" /\ s.acc < buf /\ s.pend = ""
    /\ s' = Write(s, "ok", buf - s.acc) /\ UNCHANGED <<need, hist, answers, buf, flushes>>
\* Only once everything is out.
AskFlush(r, kind) ==
    /\ CanFlush(s) /\ s.cur = "flush" /\ s.acc = buf
    /\ Len(SelectSeq(hist, LAMBDA h : h.c = "flush")) = Len(flushes) + 1
    /\ s' = Flush(s, r)
    /\ flushes' = Append(flushes, [r |-> r, kind |-> kind])
    /\ UNCHANGED <<need, hist, answers, buf>>
Ret ==
    LET ok == s.pend = ""
    IN  /\ CanReturn(s, ok, s.pend, need, 0)
        /\ s' = Return(s, ok, need)
        /\ need' = IF ok THEN need ELSE s.req
        /\ UNCHANGED <<hist, answers, buf, flushes>>
Next == \/ \E d \in 1..Len(Docs) : Ser(d) \/ One(d)
        \/ \E c \in {"flush", "finish", "drop"} : Other(c)
        \/ \E n \in 1..2 : \/ \E k \in 1..n : Offer(n, "ok", k, "")
                           \/ \E r \in {"intr", "zero"} : Offer(n, r, 0, "")
                           \/ \E kind \in Kinds : Offer(n, "err", 0, kind)
        \/ AskFlush("ok", "") \/ \E kind \in Kinds : AskFlush("err", kind)
        \/ Settle \/ Ret
Spec == Init /\ [][Next]_vars

\* Only bytes of the output are delivered, in order, none twice.
Prefix == s.acc <= buf /\ s.req <= need
\* Success means delivered.
Delivered == s.cur = "" /\ ~s.over => s.acc = s.req
\* Nothing follows a failure.
Surfaced == \A i \in 1..Len(answers) : answers[i].r \in {"zero", "err"} => i = Len(answers) /\ (s.cur # "" \/ s.over)
FlushSurfaced == \A i \in 1..Len(flushes) : flushes[i].r = "err" => i = Len(flushes) /\ (s.cur # "" \/ s.over)
Done == s.cur = "" /\ s.over
Emit == Done => PrintT("@C" \o ToJson([op |-> "sink", hist |-> hist, answers |-> answers, flushes |-> flushes]))
=============================================================================
