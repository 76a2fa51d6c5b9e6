---------------------------- MODULE ContainerGen ----------------------------
(* Every history of up to Depth updates over a few keys, two of which are      *)
(* equal.  Checked for the laws of sets and maps, and printed so that the      *)
(* histories are run on the real containers.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Keys, Values, Emit
SameKey(a, b) == a = b \/ {a, b} = {1, 2}
C == INSTANCE Containers WITH Same <- SameKey
VARIABLES content, hist
Insert(k, v) == content' = C!Inserted(content, k, v) /\ hist' = Append(hist, <<"insert", k, v>>)
PutV(k, v)   == content' = C!Put(content, k, v)      /\ hist' = Append(hist, <<"put", k, v>>)
Erase(k)     == content' = C!Erased(content, k)      /\ hist' = Append(hist, <<"erase", k, 0>>)
Clear        == content' = {}                        /\ hist' = Append(hist, <<"clear", 1, 0>>)
Init == content = {} /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in Keys, v \in Values : Insert(k, v) \/ PutV(k, v)
           \/ \E k \in Keys : Erase(k)
           \/ Clear
Emitted == Emit /\ Len(hist) = Depth => PrintT(<<"HIST", hist>>)
Spec == Init /\ [][Next]_<<content, hist>>
(* laws *)
OneEach == \A a, b \in content : SameKey(a[1], b[1]) => a = b
Bounded == Cardinality(content) <= Cardinality(Keys) - 1
Latest ==        \* membership is decided by the last update that concerns the key
  \A k \in Keys :
    LET about == {i \in 1..Len(hist) : hist[i][1] = "clear" \/ SameKey(hist[i][2], k)}
        last == CHOOSE i \in about : \A j \in about : j <= i
    IN C!Has(content, k) <=> (about # {} /\ hist[last][1] \in {"insert", "put"})
=============================================================================
