------------------------------- MODULE SerJudge ------------------------------
(* Larger histories of serializer calls, drawn by the harness.                  *)
EXTENDS Judge, Ser
I == Inputs[at].calls
M == MRun(I, 1, MInit)
RefusesOnlyThat == M.err <=> Refused(I)
SameValue == ~M.err /\ ~Repeats(I) /\ ~Big(I) => ToJson(ReadValue(M.out)) = ToJson(ToVal(I, 1))
Restores == Restorable(I) => REq(ReadAs(M.out, TypeOf(I, 1)), DataOf(I, 1))
Emit == PrintT("@C" \o ToJson(SerCase(I, M)))
=============================================================================
