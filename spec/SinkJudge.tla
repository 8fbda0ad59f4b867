------------------------------ MODULE SinkJudge ------------------------------
(* Traces recorded from the real Serializer and a scripted writer: each must    *)
(* be a behaviour of module Sink.  segs says how a run into memory divides into  *)
(* the documents as to_string writes them and the marks between them.            *)
EXTENDS Judge, Sink
I == Inputs[at]

Marks == {"--- ", "---\n"}
\* The output of a stream is its documents, each but the first after a mark.
RECURSIVE Framed(_, _)
Framed(g, i) ==
    IF i > Len(g) THEN TRUE
    ELSE /\ g[i].k = IF i % 2 = 1 THEN "doc" ELSE "mark"
         /\ g[i].k = "mark" => g[i].s \in Marks /\ i < Len(g)
         /\ Framed(g, i + 1)
\* The length of the output up to the i-th document.
RECURSIVE UpTo(_, _)
UpTo(g, n) == IF n = 0 THEN 0 ELSE g[n].n + UpTo(g, n - 1)
Need(i) == IF i = 0 THEN 0 ELSE UpTo(I.segs, 2 * i - 1)

RECURSIVE Run(_, _, _)                  \* documents written, index
Run(s, d, i) ==
    IF i > Len(I.trace) THEN [ok |-> s.cur = "", at |-> i]
    ELSE LET e == I.trace[i]
             no == [ok |-> FALSE, at |-> i]
         IN
    CASE e.e = "call" ->
           IF ~CanCall(s) THEN no
           ELSE Run(Call(s, e.c, e.refused), d + (IF e.c \in {"ser", "to_writer"} /\ ~e.refused THEN 1 ELSE 0), i + 1)
      [] e.e = "write" ->
           IF ~CanWrite(s, e.n, e.fits) THEN no ELSE Run(Write(s, e.r, e.took), d, i + 1)
      [] e.e = "flush" ->
           IF ~CanFlush(s) THEN no ELSE Run(Flush(s, e.r), d, i + 1)
      [] e.e = "ret" ->
           IF ~CanReturn(s, e.ok, e.why, Need(d), 4) THEN no ELSE Run(Return(s, e.ok, Need(d)), d, i + 1)
      [] OTHER -> no
Verdict == LET r == Run(NewSink, 0, 1) IN
           IF ~Framed(I.segs, 1) THEN [ok |-> FALSE, at |-> 0] ELSE r
Emit == PrintT("@C" \o ToJson([ok |-> Verdict.ok, at |-> Verdict.at, id |-> at]))
=============================================================================
