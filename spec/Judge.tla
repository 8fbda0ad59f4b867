-------------------------------- MODULE Judge --------------------------------
(* The recording direction, common part.  The harness draws inputs (seeded    *)
(* and much larger than exhaustive exploration reaches); TLC steps through     *)
(* them and emits for each what the specification says.  The inputs are split  *)
(* into Lanes so that TLC's workers can share them.                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Lanes
Inputs == ndJsonDeserialize(IOEnv.INPUTS)
N == Len(Inputs)
VARIABLE at
Init == at \in 1..(IF Lanes < N THEN Lanes ELSE N)
Next == at + Lanes <= N /\ at' = at + Lanes
Spec == Init /\ [][Next]_at
=============================================================================
