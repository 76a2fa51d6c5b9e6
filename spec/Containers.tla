----------------------------- MODULE Containers -----------------------------
(* A set or map of keys under an equality that identifies some keys, as an    *)
(* unordered (or ordered) container keyed by the library's types must be.     *)
(* content holds <<key as first inserted, value>> pairs, at most one per      *)
(* class of equal keys.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Same(_, _)                       \* the keys compare equal
Entry(content, k) == {e \in content : Same(e[1], k)}
Has(content, k) == Entry(content, k) # {}
TheEntry(content, k) == CHOOSE e \in content : Same(e[1], k)
Inserted(content, k, v) == IF Has(content, k) THEN content ELSE content \cup {<<k, v>>}
Put(content, k, v) == IF Has(content, k) THEN (content \ Entry(content, k)) \cup {<<TheEntry(content, k)[1], v>>}
                      ELSE content \cup {<<k, v>>}
Erased(content, k) == content \ Entry(content, k)
=============================================================================
