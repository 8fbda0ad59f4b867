------------------------------- MODULE MapGen --------------------------------
(* Mapping as an insertion-ordered map with unique keys: every history of        *)
(* operations up to MaxOps from every start, with what each returns and leaves.  *)
EXTENDS Values, Json
CONSTANTS Keys, Vals, MaxStart, MaxOps, Last   \* Last: emit only full histories
VARIABLES e, start, hist
vars == <<e, start, hist>>

\* Starts: every sequence of up to MaxStart distinct keys, the i-th with value i.
Starts == UNION {[1..n -> 1..Len(Keys)] : n \in 0..MaxStart}
Entries(f) == [i \in DOMAIN f |-> <<Keys[f[i]], Vals[((i - 1) % Len(Vals)) + 1]>>]
Init == /\ start \in {Entries(f) : f \in {g \in Starts : Distinct(Entries(g))}}
        /\ e = start /\ hist = <<>>

Opt(j, x) == IF j = 0 THEN RNone ELSE RSome(x)
Pair(kv) == VSeq(<<kv[1], kv[2]>>)
Panics == [k |-> "panic"]
Do(a, k, v, ret, after) ==
    /\ Len(hist) < MaxOps
    /\ e' = after
    /\ hist' = Append(hist, [a |-> a, key |-> k, v |-> v, ret |-> ret, after |-> after])
    /\ UNCHANGED start

Keyed(k) ==
    LET j == Find(e, k)
        at(i) == e[i][2]
        val == IF j = 0 THEN RNone ELSE RSome(at(j))
        ent == IF j = 0 THEN RNone ELSE RSome(Pair(e[j]))
        out(f(_, _)) == IF j = 0 THEN e ELSE f(e, j)
    IN  \/ Do("get", k, VNull, val, e)
        \/ Do("contains_key", k, VNull, VBool(j # 0), e)
        \/ Do("index", k, VNull, IF j = 0 THEN Panics ELSE at(j), e)
        \/ Do("remove", k, VNull, val, out(SwapOut))
        \/ Do("remove_entry", k, VNull, ent, out(SwapOut))
        \/ Do("swap_remove", k, VNull, val, out(SwapOut))
        \/ Do("swap_remove_entry", k, VNull, ent, out(SwapOut))
        \/ Do("shift_remove", k, VNull, val, out(ShiftOut))
        \/ Do("shift_remove_entry", k, VNull, ent, out(ShiftOut))
        \/ Do("entry_key", k, VNull, IF j = 0 THEN k ELSE e[j][1], e)
        \/ Do("entry_into_key", k, VNull, IF j = 0 THEN RSome(k) ELSE RNone, e)
        \/ Do("entry_get", k, VNull, val, e)
        \/ Do("entry_remove", k, VNull, val, out(SwapOut))
        \/ Do("entry_remove_entry", k, VNull, ent, out(SwapOut))
Stored(k, v) ==
    LET j == Find(e, k)
        val == IF j = 0 THEN RNone ELSE RSome(e[j][2])
        set == IF j = 0 THEN e ELSE [e EXCEPT ![j] = <<e[j][1], v>>]
        dflt == IF j = 0 THEN v ELSE e[j][2]
        put == MPut(e, k, v)
    IN  \/ Do("insert", k, v, val, put)
        \/ Do("get_mut", k, v, VBool(j # 0), set)
        \/ Do("index_mut", k, v, IF j = 0 THEN Panics ELSE v, set)
        \/ Do("or_insert", k, v, dflt, IF j = 0 THEN put ELSE e)
        \/ Do("or_insert_with", k, v, dflt, IF j = 0 THEN put ELSE e)
        \/ Do("and_modify", k, v, VBool(j # 0), set)
        \/ Do("modify_or_insert", k, v, v, put)
        \/ Do("entry_set", k, v, val, put)             \* occupied insert, or vacant insert
        \/ Do("entry_into_mut", k, v, VBool(j # 0), set)
Whole ==
    LET odd == [i \in 1..((Len(e) + 1) \div 2) |-> e[2 * i - 1]]
        no == VNull
        sw == [i \in 1..Len(e) |-> <<e[i][1], VInt(MkInt(FALSE, ToString(i)))>>]
    IN  \/ Do("clear", no, no, no, <<>>)
        \/ Do("retain_odd", no, no, no, odd)
        \/ Do("iter_mut", no, no, no, sw)
        \/ Do("values_mut", no, no, no, sw)
        \/ Do("retain_mut", no, no, no, SubSeq(sw, 2, Len(sw)))
        \/ Do("collect_reversed", no, no, no, [i \in 1..Len(e) |-> e[Len(e) + 1 - i]])
        \/ Do("into_iter_collect", no, no, no, e)
        \/ Do("clone", no, no, no, e)
        \/ Do("reserve_shrink", no, no, no, e)
More(kvs) == Do("extend", VMap(kvs), VNull, VNull, MPuts(e, kvs, 1))
Extra == {<< <<Keys[1], Vals[1]>>, <<Keys[2], Vals[2]>>, <<Keys[1], Vals[2]>> >>, <<>>,
          << <<Keys[Len(Keys)], Vals[2]>> >>}

Next == \/ \E k \in 1..Len(Keys) : Keyed(Keys[k])
        \/ \E k \in 1..Len(Keys), v \in 1..Len(Vals) : Stored(Keys[k], Vals[v])
        \/ Whole
        \/ \E x \in Extra : More(x)
Spec == Init /\ [][Next]_vars

Unique == Distinct(e)
\* A key that is found is found where it is stored, and only stored keys are found.
Lookup == \A i \in 1..Len(Keys) : LET j == Find(e, Keys[i]) IN j # 0 => VEq(e[j][1], Keys[i])
\* Operations other than swap removal and reversal keep the order of the keys that stay.
KeepsOrder ==
    hist # <<>> =>
    LET h == hist[Len(hist)]
        before == IF Len(hist) = 1 THEN start ELSE hist[Len(hist) - 1].after
    IN  h.a \notin {"remove", "remove_entry", "swap_remove", "swap_remove_entry", "entry_remove", "entry_remove_entry", "collect_reversed"}
        => \A i, j \in 1..Len(e) :
              LET a == Find(before, e[i][1])  b == Find(before, e[j][1])
              IN  i < j /\ b # 0 => a # 0 /\ a < b
Emit == Len(hist) = MaxOps => PrintT("@C" \o ToJson([op |-> "mapping", start |-> start, hist |-> hist]))
=============================================================================
