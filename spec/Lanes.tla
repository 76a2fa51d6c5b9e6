------------------------------- MODULE Lanes -------------------------------
(* A value of any zcm type is the sequence of its lanes in storage order:     *)
(* float lanes are binary32 patterns, integers are themselves, Booleans 0/1;  *)
(* matrices are column-major and quaternions x, y, z, w.                      *)
EXTENDS Integers, Sequences, Eager

B01(c) == IF c THEN 1 ELSE 0
(* lane i of a value; a scalar takes part in every lane *)
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Width2(m, n) == IF m = 1 THEN n ELSE m
Width(a, b) == Width2(Len(a), Len(b))
Map1(Op(_), a)          == Tup([i \in 1..Len(a) |-> Op(a[i])])
Map2(Op(_,_), a, b)     == Tup([i \in 1..Width(a, b) |-> Op(At(a, i), At(b, i))])
(* the scalar relation holds in every lane of the result *)
Rel1(R(_,_), a, z)      == Len(z) = Len(a) /\ \A i \in 1..Len(a) : R(a[i], z[i])
Rel2(R(_,_,_), a, b, z) == Len(z) = Width(a, b) /\ \A i \in 1..Len(z) : R(At(a, i), At(b, i), z[i])
Rel3(R(_,_,_,_), a, b, c, z) == Len(z) = Width2(Len(a), Width(b, c)) /\ \A i \in 1..Len(z) : R(At(a, i), At(b, i), At(c, i), z[i])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Replace(s, i, v) == Tup([k \in 1..Len(s) |-> IF k = i THEN v ELSE s[k]])
(* matrices: order, column, element (0-based, as in the API) *)
Order(m) == IF Len(m) = 4 THEN 2 ELSE IF Len(m) = 9 THEN 3 ELSE 4
El(m, c, r) == m[c * Order(m) + r + 1]
Mat(n, f(_,_)) == Tup([k \in 1..n * n |-> f((k - 1) \div n, (k - 1) % n)])
Column(m, c) == SubSeq(m, c * Order(m) + 1, c * Order(m) + Order(m))
(* component names: the same position in each of the three families *)
NameIndex(l) ==
  CASE l \in {"x", "r", "s"} -> 1
    [] l \in {"y", "g", "t"} -> 2
    [] l \in {"z", "b", "p"} -> 3
    [] l \in {"w", "a", "q"} -> 4
Select(s, names) == Tup([k \in 1..Len(names) |-> s[NameIndex(names[k])]])
=============================================================================
