------------------------------- MODULE SingleGen -----------------------------
(* Every history of serializer calls with an adapter somewhere in it.           *)
EXTENDS SerGen, Single
OneAdapter(c) == Cardinality({i \in 1..Len(c) : c[i].k \in {"sm", "smr"}}) <= 1
SSpec == Init /\ [][Next /\ OneAdapter(calls')]_<<calls, stack, m>>
Ready == Done /\ ~OneAdapter(<<[k |-> "sm"]>> \o calls)
\* (each evaluates the run anew)
WithRun(P(_, _, _)) == LET a == Adapted(calls) IN P(calls, a, MRun(a, 1, MInit))
SWrites   == Ready => WithRun(WritesAs)
SRestored == Ready => WithRun(Restored)
SNoTags   == Ready => WithRun(NoTags)
SOnlyEnums == Ready => OnlyEnums(calls, Adapted(calls))
SEmit     == Ready /\ ~Repeats(Adapted(calls)) => LET a == Adapted(calls) IN PrintT("@C" \o ToJson(SingleCase(calls, a, MRun(a, 1, MInit))))
=============================================================================
