------------------------------- MODULE SerGen -------------------------------
(* Every history of serializer calls up to a number of nodes, with the         *)
(* streaming serializer stepping along.                                        *)
EXTENDS Ser
CONSTANTS Leaves,      \* leaf calls
          Wraps,       \* wrapper calls to use (records without kids)
          Colls,       \* collection calls to use (records without kids)
          MaxNodes, MaxDepth
VARIABLES calls, stack, m
(* stack: frames [id, tagged]: tagged says the key just written was a tag.     *)

Init == calls = <<>> /\ stack = <<>> /\ m = MInit

Fields == <<"x", "y1", "1", "true">>
Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)

\* A kid was completed: the frame on top moves on, and wrappers complete with it.
RECURSIVE Settle(_, _, _)
Settle(c, st, mm) ==
    IF st = <<>> THEN [st |-> st, m |-> mm]
    ELSE LET f == Top(st)
             n == c[f.id]
             slot == Len(n.kids)
         IN  IF n.k \in Wrappers THEN Settle(c, Pop(st), MEnd(mm, n))
             ELSE IF n.k = "map" /\ n.ms = "entry"
             THEN IF slot % 2 = 1
                  THEN [st |-> [st EXCEPT ![Len(st)].tagged = (mm.st = "tag")], m |-> mm]
                  ELSE [st |-> [st EXCEPT ![Len(st)].tagged = FALSE],
                        m |-> IF f.tagged THEN [mm EXCEPT !.st = "already"] ELSE mm]
             ELSE [st |-> st, m |-> mm]

Open == calls = <<>> \/ stack # <<>>
Room == Len(calls) < MaxNodes
\* The parent may take one more kid.
Takes == IF stack = <<>> THEN TRUE
         ELSE LET n == calls[Top(stack).id] IN
              /\ (n.k \in Fielded => Len(n.kids) < Len(Fields))
              /\ (n.k \in Wrappers => n.kids = <<>>)
Prepared == IF stack = <<>> \/ m.err THEN m
            ELSE LET n == calls[Top(stack).id] IN MBeforeKid(m, n, Len(n.kids))
Added(n) ==
    LET id == Len(calls) + 1
        c  == Append(calls, n)
    IN  IF stack = <<>> THEN c ELSE [c EXCEPT ![Top(stack).id].kids = Append(@, id)]
Step(mm, F(_)) == IF mm.err THEN mm ELSE F(mm)

Leaf(n) ==
    /\ Open /\ Room /\ Takes
    /\ calls' = Added(n)
    /\ LET f(x) == MBegin(x, n)
           a == Step(Prepared, f)
           s == Settle(calls', stack, a)
       IN  stack' = s.st /\ m' = IF a.err THEN a ELSE s.m
Start(n) ==
    /\ Open /\ Room /\ Takes /\ Len(stack) < MaxDepth
    /\ calls' = Added(n)
    /\ LET f(x) == MBegin(x, n) IN m' = Step(Prepared, f)
    /\ stack' = Append(stack, [id |-> Len(calls) + 1, tagged |-> FALSE])
\* The length hint and the number of entries agree as they should.
HintOk(n) == n.k = "map" => /\ Len(n.kids) % 2 = 0
                            /\ n.len = "exact" => (n.hint1 = (Len(n.kids) = 2))
                            /\ n.len = "one" => Len(n.kids) # 2 /\ \A i \in 1..Len(n.kids) : calls[Inner(calls, n.kids[i])].k # "disp"
Stop ==
    /\ stack # <<>> /\ calls[Top(stack).id].k \notin Wrappers
    /\ HintOk(calls[Top(stack).id])
    /\ LET n == calls[Top(stack).id]
           f(x) == MEnd(x, n)
           a == Step(m, f)
           s == Settle(calls, Pop(stack), a)
       IN  stack' = s.st /\ m' = IF a.err THEN a ELSE s.m
    /\ UNCHANGED calls

Next == \/ \E n \in Leaves : Leaf(n)
        \/ \E n \in Wraps \cup Colls : Start(IF n.k \in Fielded THEN [n EXCEPT !.ms = Fields] ELSE n)
        \/ Stop
Spec == Init /\ [][Next]_<<calls, stack, m>>
Done == calls # <<>> /\ stack = <<>>

(* --- properties of the model --- *)
\* Text is refused exactly when it cannot express the data (C02).
RefusesOnlyThat == Done => (m.err <=> Refused(calls))
\* Stepping along and running at once are the same machine.
OneMachine == Done => LET r == MRun(calls, 1, MInit) IN r.err = m.err /\ (~m.err => r = m)
\* The text reads back as the Value the data denotes (C02).
SameValue == Done /\ ~m.err /\ ~Repeats(calls) /\ ~Big(calls)
             => ToJson(ReadValue(m.out)) = ToJson(ToVal(calls, 1))
\* Nothing is left pending or open at the end of a document.
Clean == Done /\ ~m.err => m.st = "no" /\ m.open = <<>> /\ m.out # <<>>
\* Reading with the data's own type restores it, from text and from the Value (C11).
Restores == Done /\ Restorable(calls) =>
    /\ REq(ReadAs(m.out, TypeOf(calls, 1)), DataOf(calls, 1))
    /\ ~Big(calls) => REq(FromV(ToVal(calls, 1), TypeOf(calls, 1)), DataOf(calls, 1))

Emit == Done => PrintT("@C" \o ToJson(SerCase(calls, m)))
=============================================================================
