----------------------------- MODULE MergeJudge ------------------------------
(* Larger Values with merge keys, drawn by the harness.                          *)
EXTENDS Judge, Merge
MergeRules == Rules(Inputs[at])
Emit == PrintT("@C" \o ToJson(MergeCase(Inputs[at])))
=============================================================================
