---------------------------- MODULE SwizzleTable ----------------------------
(* The tables printed by tools/combinations.py.  A table for n components and  *)
(* k letters lists every sequence of k component numbers below n exactly once, *)
(* each with the names the three families give it.  The rows arrive in any     *)
(* order; the state is the set of combinations listed so far.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tables == ndJsonDeserialize(IOEnv.TRACE)     \* [n, k, rows: <<[idx, names]>>]
Letters == <<<<"x", "y", "z", "w">>, <<"r", "g", "b", "a">>, <<"s", "t", "p", "q">>>>
RECURSIVE Cat(_, _, _)
Cat(s, idx, i) == IF i > Len(idx) THEN "" ELSE s[idx[i] + 1] \o Cat(s, idx, i + 1)
NamesOf(idx) == {Cat(Letters[f], idx, 1) : f \in 1..3}
VARIABLES sid, i, listed, verdict
Init == sid \in 1..Len(Tables) /\ i = 0 /\ listed = {} /\ verdict = "ok"
Row == LET row == Tables[sid].rows[i + 1] IN
  /\ i < Len(Tables[sid].rows) /\ verdict = "ok"
  /\ i' = i + 1 /\ sid' = sid
  /\ listed' = listed \cup {row.idx}
  /\ verdict' = IF /\ Len(row.idx) = Tables[sid].k
                   /\ \A j \in 1..Len(row.idx) : row.idx[j] \in 0..Tables[sid].n - 1
                   /\ row.idx \notin listed
                   /\ Len(row.names) = 3 /\ {row.names[j] : j \in 1..3} = NamesOf(row.idx)
                THEN "ok" ELSE "bad"
Spec == Init /\ [][Row]_<<sid, i, listed, verdict>>
RECURSIVE Pow(_, _)
Pow(n, k) == IF k = 0 THEN 1 ELSE n * Pow(n, k - 1)
Conformance == verdict = "ok" /\ (i = Len(Tables[sid].rows) => Cardinality(listed) = Pow(Tables[sid].n, Tables[sid].k))
=============================================================================
