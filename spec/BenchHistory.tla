---------------------------- MODULE BenchHistory ----------------------------
(* Histories of the benchmark generator: it is run again and again, on a       *)
(* directory that is fresh, holds an older program, or holds unrelated files   *)
(* under the names the generator uses; without an argument; or on a path that  *)
(* is no directory.  Whatever the history, a directory that was given in a     *)
(* valid run holds a complete program, and other places keep what they held.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dirs, Depth
VARIABLES tree, hist
Start == [d \in Dirs |-> IF d = "littered" THEN "litter" ELSE IF d = "file" THEN "file" ELSE "empty"]
Init == tree = Start /\ hist = <<>>
IsDir(d) == tree[d] # "file"
Run(d)  == tree' = (IF IsDir(d) THEN [tree EXCEPT ![d] = "program"] ELSE tree) /\ hist' = Append(hist, d)
NoArg   == UNCHANGED tree /\ hist' = Append(hist, "none")
Next == Len(hist) < Depth /\ ((\E d \in Dirs : Run(d)) \/ NoArg)
Spec == Init /\ [][Next]_<<tree, hist>>
Given == {hist[i] : i \in 1..Len(hist)}
Holds == \A d \in Dirs : tree[d] = (IF d \in Given /\ Start[d] # "file" THEN "program" ELSE Start[d])
Emitted == Len(hist) = Depth => PrintT(<<"RUNS", hist>>)
=============================================================================
