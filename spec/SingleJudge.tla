------------------------------ MODULE SingleJudge ----------------------------
(* Larger histories with adapters in them, drawn by the harness.                *)
EXTENDS Judge, Single
I == Inputs[at].calls
A == Adapted(I)
M == MRun(A, 1, MInit)
SWrites   == WritesAs(I, A, M)
SRestored == Restored(I, A, M)
SNoTags   == NoTags(I, A, M)
SOnlyEnums == OnlyEnums(I, A)
SEmit     == ~Repeats(A) => PrintT("@C" \o ToJson(SingleCase(I, A, M)))
=============================================================================
