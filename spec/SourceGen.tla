------------------------------ MODULE SourceGen ------------------------------
(* A reader under a text of N bytes: every way of handing them out in pieces,  *)
(* interrupting, ending early and failing.                                     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, MaxCalls, MaxInterrupts
VARIABLES given, calls, state, intr     \* state: "reading" "ended" "failed"
Init == given = 0 /\ calls = <<>> /\ state = "reading" /\ intr = 0
Step(c) == state = "reading" /\ Len(calls) < MaxCalls /\ calls' = Append(calls, c)
Give(k) == Step(k) /\ given + k <= N /\ given' = given + k /\ UNCHANGED <<state, intr>>
\* An interruption is no failure: the call is repeated.
Interrupt == Step(0 - 1) /\ intr < MaxInterrupts /\ intr' = intr + 1 /\ UNCHANGED <<given, state>>
End == Step(0) /\ state' = "ended" /\ UNCHANGED <<given, intr>>
Fail == Step(0 - 2) /\ state' = "failed" /\ UNCHANGED <<given, intr>>
Next == (\E k \in 1..N : Give(k)) \/ Interrupt \/ End \/ Fail
Spec == Init /\ [][Next]_<<given, calls, state, intr>>

Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + IF s[i] \in 1..N THEN s[i] ELSE 0 IN S(Len(s))
\* What is read is what was given until the end, all of it, once.
Complete == given = Sum(calls) /\ (state = "ended" => calls[Len(calls)] = 0)
Emit == state # "reading" =>
    PrintT("@C" \o ToJson([op |-> "source", n |-> N, calls |-> calls, io |-> state = "failed", given |-> given]))
=============================================================================
