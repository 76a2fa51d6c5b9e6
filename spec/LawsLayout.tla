----------------------------- MODULE LawsLayout -----------------------------
(* One object, written and read through all of its views.  The state keeps,   *)
(* beside the object, an independent account of it: a function from places    *)
(* (column, row) to the value last written there.  Whatever the history of    *)
(* writes, every view shows that account.                                     *)
EXTENDS Layout, FiniteSets, TLC
CONSTANTS Depth, Shapes
VARIABLES shape, obj, place, n
(* shapes: the number of lanes; 4 stands for a vector, 44 for a matrix of order 2 *)
IsMat == shape > 4
Size == CASE shape = 44 -> 4 [] shape = 33 -> 9 [] OTHER -> shape
Ord == IF IsMat THEN (IF shape = 44 THEN 2 ELSE 3) ELSE 1
Cols == IF IsMat THEN 0..(Ord - 1) ELSE 0..(Size - 1)
RowsOf == 0..(Ord - 1)
Letter(f, i) == <<<<"x", "y", "z", "w">>, <<"r", "g", "b", "a">>, <<"s", "t", "p", "q">>>>[f][i + 1]
Start(sz) == Tup([k \in 1..sz |-> k])
Init ==
  /\ shape \in Shapes /\ n = 0
  /\ obj = Start(Size)
  /\ place = [c \in Cols, r \in RowsOf |-> IF IsMat THEN c * Ord + r + 1 ELSE c + 1]
Value == 10 + n
Write(op, p, a, c, r) ==
  /\ n < Depth /\ n' = n + 1 /\ UNCHANGED shape
  /\ obj' = LayoutUpdate(op, p, <<obj>> \o a)
  /\ place' = [place EXCEPT ![<<c, r>>] = Value]
VecIndex  == ~IsMat /\ \E c \in Cols : Write("setidx", <<>>, <<<<c>>, <<Value>>>>, c, 0)
VecPtr    == ~IsMat /\ \E c \in Cols : Write("ptrset", <<>>, <<<<c>>, <<Value>>>>, c, 0)
VecName   == ~IsMat /\ \E c \in Cols, f \in 1..3 : Write("set", <<Letter(f, c)>>, <<<<Value>>>>, c, 0)
VecCopy   == ~IsMat /\ \E c, d \in Cols : /\ n < Depth /\ n' = n + 1 /\ UNCHANGED shape
                                          /\ obj' = LayoutUpdate("setc", <<Letter(1, c), Letter(2, d)>>, <<obj, obj>>)
                                          /\ place' = [place EXCEPT ![<<c, 0>>] = place[<<d, 0>>]]
MatElem   == IsMat /\ \E c \in Cols, r \in RowsOf : Write("setelem", <<>>, <<<<c>>, <<r>>, <<Value>>>>, c, r)
MatPtr    == IsMat /\ \E c \in Cols, r \in RowsOf : Write("ptrset", <<>>, <<<<c * Ord + r>>, <<Value>>>>, c, r)
MatCol    == IsMat /\ \E c \in Cols : /\ n < Depth /\ n' = n + 1 /\ UNCHANGED shape
                                      /\ obj' = LayoutUpdate("setcol", <<>>, <<obj, <<c>>, Tup([k \in 1..Ord |-> 100 + 10 * n + k])>>)
                                      /\ place' = [x \in DOMAIN place |-> IF x[1] = c THEN 100 + 10 * n + x[2] + 1 ELSE place[x]]
MatColCol == IsMat /\ \E c, d \in Cols : /\ n < Depth /\ n' = n + 1 /\ UNCHANGED shape
                                         /\ obj' = LayoutUpdate("colcolset", <<>>, <<obj, <<c>>, <<d>>>>)
                                         /\ place' = [x \in DOMAIN place |-> IF x[1] = c THEN place[<<d, x[2]>>] ELSE place[x]]
Next == VecIndex \/ VecPtr \/ VecName \/ VecCopy \/ MatElem \/ MatPtr \/ MatCol \/ MatColCol
Spec == Init /\ [][Next]_<<shape, obj, place, n>>
R(op, p, a) == LayoutResult(op, p, <<obj>> \o a, 1)
Views ==
  /\ Len(obj) = Size
  /\ ~IsMat => \A c \in Cols :
       LET v == <<place[<<c, 0>>]>> IN
       /\ R("index", <<>>, <<<<c>>>>) = v /\ R("ptrget", <<>>, <<<<c>>>>) = v
       /\ \A f \in 1..3 : R("get", <<Letter(f, c)>>, <<>>) = v
       /\ \A d \in Cols, f \in 1..3 : R("get", <<Letter(f, c), Letter(f, d), Letter(f, c)>>, <<>>) = <<place[<<c, 0>>], place[<<d, 0>>], place[<<c, 0>>]>>
       /\ LayoutAllowed("indexw", <<>>, <<obj, <<c>>>>, <<obj, v>>) /\ ~LayoutAllowed("index", <<>>, <<obj, <<c>>>>, <<<<v[1] + 1>>>>)
  /\ IsMat => \A c \in Cols, r \in RowsOf :
       LET v == place[<<c, r>>] IN
       /\ R("elem", <<>>, <<<<c>>, <<r>>>>) = <<v>> /\ R("ptrget", <<>>, <<<<c * Ord + r>>>>) = <<v>>
       /\ R("col", <<>>, <<<<c>>>>)[r + 1] = v /\ El(obj, c, r) = v
       (* embedding in the next order keeps the elements, adds ones on the diagonal; truncation undoes it *)
       /\ LET e == R("embed", <<>>, <<>>) IN /\ El(e, c, r) = v /\ El(e, Ord, Ord) = OneF /\ El(e, c, Ord) = 0 /\ El(e, Ord, r) = 0
                                             /\ LayoutResult("trunc", <<>>, <<e>>, Size) = obj
  (* constructing from the parts gives the object back *)
  /\ IsMat => LayoutResult("mconcat", <<>>, Tup([c \in 1..Ord |-> Column(obj, c - 1)]), Size) = obj
  /\ ~IsMat => LayoutResult("concat", <<>>, Tup([c \in 1..Size |-> <<obj[c]>>]), Size) = obj
  /\ LayoutResult("wxyz", <<>>, <<<<4>>, <<1>>, <<2>>, <<3>>>>, 4) = <<1, 2, 3, 4>> /\ LayoutResult("sv", <<>>, <<<<4>>, <<1, 2, 3>>>>, 4) = <<1, 2, 3, 4>>
  /\ LayoutResult("bcast", <<>>, <<<<7>>>>, Size) = Tup([k \in 1..Size |-> 7])
  /\ LayoutResult("ident", <<>>, <<<<0, 0, 0, 0>>>>, 4) = <<OneF, 0, 0, OneF>> /\ LayoutResult("mdiag", <<>>, <<<<5>>>>, 9) = <<5, 0, 0, 0, 5, 0, 0, 0, 5>>
  /\ \A i \in {-3, 1, 2, 16777215, 16777217, 2147483647} : RLe(RAbs(RSub(R32(FromInt(i)), i)), RMul(RPow2(-24), RAbs(RAdd(i, 0))))
  /\ LayoutResult("tobool", <<>>, <<<<0, 5, -1>>>>, 3) = <<0, 1, 1>>
=============================================================================
