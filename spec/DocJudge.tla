------------------------------ MODULE DocJudge ------------------------------
(* Documents recorded with target types of their own.                          *)
EXTENDS Judge, Doc
Loaded == LoadDoc(Inputs[at].nodes)
Types  == Inputs[at].reads

\* The rules of DocGen hold for every recorded document too.
Resolution == AliasMeansLast(Loaded)
Transparent == LET d == Loaded IN Expandable(d) =>
    \A i \in 1..Len(Types) : Same(ReadAs(d, Types[i]), ReadAs(Expand(d), Types[i]))
ThroughValue == LET d == Loaded IN \A i \in 1..Len(Types) : Agree(d, Types[i])

Emit == LET d == Loaded IN
    PrintT("@C" \o ToJson(DocCaseOf(d, Types)))
=============================================================================
