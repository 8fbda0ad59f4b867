----------------------------- MODULE ScalarJudge -----------------------------
EXTENDS Judge, Scalar
Emit == PrintT("@C" \o ToJson(ScalarCase(Inputs[at].s)))
\* The rules of ScalarGen hold for every recorded text too.
QuotingSound == LET t == Inputs[at].s IN ~NeedsQuotes(t) => ResolvePlain(t) = VStr(t)
CanonStable  == LET l == IntLit(Inputs[at].s) IN l.ok => IntLit(ShowInt(l.val)).val = l.val
=============================================================================
