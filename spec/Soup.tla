-------------------------------- MODULE Soup --------------------------------
(* Any text at all, YAML or not.  What a text means is the business of the      *)
(* other modules (as far as they know its documents); here is the contract that  *)
(* the observations of one text through every entry point must satisfy,          *)
(* whatever it is.  An outcome is [r, c, v]: r is "ok" or "err", c the class of   *)
(* an error that is not about one document ("many"), v the Value read.           *)
EXTENDS Values

\* Values that can be written: no tag directly in a tag, and plain tag names.
WordChars == {Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-", i) : i \in 1..64}
RECURSIVE Writable(_)
Writable(v) ==
    CASE v.k = "seq" -> \A i \in 1..Len(v.e) : Writable(v.e[i])
      [] v.k = "map" -> \A i \in 1..Len(v.e) : Writable(v.e[i][1]) /\ Writable(v.e[i][2])
      [] v.k = "tag" -> v.v.k # "tag" /\ v.t # "" /\ (\A i \in 1..Len(v.t) : Ch(v.t, i) \in WordChars) /\ Writable(v.v)
      [] OTHER -> TRUE
\* What any Value that was read satisfies: keys are unique, integers have the
\* one form of their value and fit 64 bits.
RECURSIVE WellFormed(_)
WellFormed(v) ==
    CASE v.k = "seq" -> \A i \in 1..Len(v.e) : WellFormed(v.e[i])
      [] v.k = "map" -> /\ \A i \in 1..Len(v.e) : WellFormed(v.e[i][1]) /\ WellFormed(v.e[i][2])
                        /\ Distinct(v.e)
      [] v.k = "tag" -> WellFormed(v.v)
      [] v.k = "int" -> LET n == IntLit(v.s) IN FitsInt64(n) /\ ShowInt(n.val) = v.s
      [] OTHER -> TRUE

(* One observation t: t.outs the distinct outcomes, everything else refers to    *)
(* them by number (0: not read).                                                 *)
R(t, i) == t.outs[i].r
Total(t) == \A i \in 1..Len(t.outs) : R(t, i) \in {"ok", "err"}
Sources(t) == \A i \in 1..Len(t.reads) : \A j \in 1..Len(t.reads[i].by) : t.reads[i].by[j] = t.reads[i].by[1]

\* The iterator: items until the end, or an error that stays.
Base(t) == t.iters[1]
Ends(t) == \A i \in 1..Len(t.iters) :
             LET x == t.iters[i]  n == Len(x.items)
             IN  /\ n = Len(Base(t).items) /\ x.ended = Base(t).ended /\ n >= 1
                 /\ x.ended \/ x.items[n] = 0 \/ (R(t, x.items[n]) = "err" /\ x.items[n - 1] \in {0, x.items[n]})
\* No history changes what an item is.
Independent(t) == \A i \in 1..Len(t.iters) : \A j \in 1..Len(t.iters[i].items) :
                     t.iters[i].as = "any" => t.iters[i].items[j] \in {0, Base(t).items[j]}
\* Reading as a single document.
SingleDoc(t) ==
    LET b == Base(t).items  s == t.reads[1].by[1]
    IN  IF R(t, b[1]) = "err" \/ (Len(b) = 1 /\ Base(t).ended) THEN s = b[1]
        ELSE R(t, s) = "err" /\ t.outs[s].c = "many"
\* Whatever can be read as a Value can be skipped.
Skippable(t) == \A i \in 1..Len(t.iters) : t.iters[i].as = "ign" =>
                  \A j \in 1..Len(t.iters[i].items) : R(t, Base(t).items[j]) = "ok" => R(t, t.iters[i].items[j]) = "ok"
Valued(t) == \A i \in 1..Len(t.writes) : LET w == t.writes[i] IN
               /\ WellFormed(t.outs[w.of].v)
               /\ w.text \in {"ok", "err"}
               /\ R(t, w.tree) = "ok" /\ w.tree = w.of
               /\ w.owned = w.ref
               /\ Writable(t.outs[w.of].v) => w.text = "ok" /\ w.back = w.of
\* An error that has a location has one within the text, where line, column and
\* index are the same place, and its message names it unless it is the very start.
\* (The end of a text ends its last line, too.)
Placed(t) == \A i \in 1..Len(t.outs) : R(t, i) = "err" /\ t.outs[i].p.loc # <<>> =>
               LET p == t.outs[i].p  lc == <<p.loc[1], p.loc[2]>>
               IN  /\ p.at = lc \/ (p.end /\ p.at # <<>> /\ lc = <<p.at[1] + 1, 1>>)
                   /\ lc = <<1, 1>> \/ \E j \in 1..Len(p.named) : p.named[j] = lc
Names == <<"Total", "Sources", "Ends", "Independent", "SingleDoc", "Skippable", "Valued", "Placed">>
BrokenOf(t, names) == SelectSeq(Names, LAMBDA n : n \in names /\
    CASE n = "Total" -> ~Total(t) [] n = "Sources" -> ~Sources(t) [] n = "Ends" -> ~Ends(t)
      [] n = "Independent" -> Total(t) /\ Ends(t) /\ ~Independent(t)
      [] n = "SingleDoc" -> Total(t) /\ Ends(t) /\ ~SingleDoc(t)
      [] n = "Skippable" -> Total(t) /\ Ends(t) /\ ~Skippable(t)
      [] n = "Placed" -> Total(t) /\ ~Placed(t)
      [] n = "Valued" -> Total(t) /\ ~Valued(t))
=============================================================================
