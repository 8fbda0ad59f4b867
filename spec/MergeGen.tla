------------------------------ MODULE MergeGen -------------------------------
(* Every Value up to a number of nodes over a few leaves, tags and keys, among   *)
(* them the merge key.                                                           *)
EXTENDS Merge, Json
CONSTANTS Leaves, Keys, Tags, MaxNodes, MaxDepth
VARIABLES done, stack       \* stack: open nodes, each [k, e, key, t]; done: <<v>> when finished
vars == <<done, stack>>
(* A node that is complete is put into the one above it.                         *)
Init == done = <<>> /\ stack = <<>>
RECURSIVE Nodes(_)
RECURSIVE NodesIn(_)
Nodes(v) == CASE v.k = "seq" -> 1 + NodesIn([i \in 1..Len(v.e) |-> v.e[i]])
              [] v.k = "map" -> 1 + NodesIn([i \in 1..Len(v.e) |-> v.e[i][2]])
              [] v.k = "tag" -> 1 + Nodes(v.v)
              [] OTHER -> 1
NodesIn(s) == IF s = <<>> THEN 0 ELSE Nodes(s[1]) + NodesIn(Tail(s))
Used == LET RECURSIVE U(_) U(i) == IF i = 0 THEN 0 ELSE U(i - 1) + (IF stack[i].k = "tag" THEN 1 ELSE Nodes(stack[i])) IN U(Len(stack))
RECURSIVE Settle(_, _)
Settle(st, v) ==
    IF st = <<>> THEN [d |-> <<v>>, s |-> <<>>]
    ELSE LET f == st[Len(st)]  up == SubSeq(st, 1, Len(st) - 1) IN
         IF f.k = "tag" THEN Settle(up, VTag(f.t, v))
         ELSE [d |-> <<>>, s |-> [st EXCEPT ![Len(st)].e = Append(f.e, IF f.k = "seq" THEN v ELSE <<f.key, v>>),
                                            ![Len(st)].key = VNull]]
Room == done = <<>> /\ Used < MaxNodes
Ready == IF stack = <<>> THEN TRUE ELSE LET f == stack[Len(stack)] IN IF f.k = "map" THEN f.key.k # "null" ELSE TRUE
Put(v) == LET r == Settle(stack, v) IN done' = r.d /\ stack' = r.s
Leaf(v) == Room /\ Ready /\ Put(v)
Open(k, t) == /\ Room /\ Ready /\ Len(stack) < MaxDepth
              /\ stack' = Append(stack, [k |-> k, e |-> <<>>, key |-> VNull, t |-> t]) /\ UNCHANGED done
\* The next key of the mapping on top.
Key(k) == /\ Room /\ stack # <<>>
          /\ LET f == stack[Len(stack)] IN
             /\ f.k = "map" /\ f.key.k = "null" /\ Find(f.e, k) = 0
             /\ stack' = [stack EXCEPT ![Len(stack)].key = k] /\ UNCHANGED done
End == /\ stack # <<>>
       /\ LET f == stack[Len(stack)]
              r == Settle(SubSeq(stack, 1, Len(stack) - 1), [k |-> f.k, e |-> f.e])
          IN  f.k # "tag" /\ f.key.k = "null" /\ done' = r.d /\ stack' = r.s
Next == \/ \E i \in 1..Len(Leaves) : Leaf(Leaves[i])
        \/ Open("seq", "") \/ Open("map", "")
        \/ \E t \in Tags : Open("tag", t)
        \/ \E i \in 1..Len(Keys) : Key(Keys[i])
        \/ End
Spec == Init /\ [][Next]_vars
MergeRules == done # <<>> => Rules(done[1])
Emit == done # <<>> => PrintT("@C" \o ToJson(MergeCase(done[1])))
=============================================================================
