----------------------------- MODULE LawsLinAlg -----------------------------
(* What the vector and matrix algebra of LinAlg must satisfy.  The elements   *)
(* are small integers, so that all sums and products are exact.               *)
EXTENDS LinAlg, FiniteSets, TLC
CONSTANT Full                  \* the larger domain
VARIABLE s
E3 == {-1, 0, 2}
V2 == {<<a, b>> : a, b \in -2..2}
V3 == {<<a, b, c>> : a, b, c \in E3}
M2 == {<<a, b, c, d>> : a, b, c, d \in E3}
M3 == {<<a, b, c, d, e, f, 1, g, -1>> : a, b, c, d \in E3, e, f, g \in IF Full THEN E3 ELSE {-1}}
M3b == {<<2, 0, 1, 1, -1, 0, 0, 1, 3>>, <<0, 1, 0, 0, 0, 1, 1, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}
M4 == {<<a, 1, b, 0, 2, c, -1, d, 0, e, 1, 1, a, 0, f, -2>> : a, b, c \in {-1, 0, 1}, d, e, f \in IF Full THEN {-1, 0, 1} ELSE {1}}
M4b == {<<1, 2, 0, 1, 0, 1, 3, 0, 2, 0, 1, 1, 1, 1, 0, 2>>, <<0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0>>}
Init ==
  \/ \E a, b \in V3 : s = <<"vectors", a, b>>
  \/ \E a \in M2, b \in IF Full THEN M2 ELSE {m \in M2 : m[1] = 2 /\ m[4] # 0} : s = <<"matrices", a, b, <<1, -3>>>>
  \/ \E a \in M3, b \in M3b : s = <<"matrices", a, b, <<1, -3, 2>>>>
  \/ \E a \in M4, b \in M4b : s = <<"matrices", a, b, <<1, -3, 2, 5>>>>
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Eqs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : REq(x[i], y[i])
Det(m) == DetOf(m, Idx(Order(m)), Idx(Order(m)))
(* products in reals *)
Mul(a, b) == Mat(Order(a), LAMBDA c, r : RSum(Tup([k \in 1..Order(a) |-> RMul(El(a, k - 1, r), El(b, c, k - 1))])))
Ints(m) == Map1(BReal, m)
Mid(b) == Map1(BMid, b)
One_(n) == Mat(n, LAMBDA c, r : IF c = r THEN 1 ELSE 0)
Vectors ==
  s[1] = "vectors" =>
    LET a == s[2] b == s[3] x == RCross(a, b) IN
    /\ Eqs(x, RScale(-1, RCross(b, a))) /\ REq(RDot(a, x), 0) /\ REq(RDot(b, x), 0)
    /\ REq(RDot(x, x), RSub(RMul(RDot(a, a), RDot(b, b)), RMul(RDot(a, b), RDot(a, b))))           \* Lagrange
    /\ Eqs(RCross(<<1, 0, 0>>, <<0, 1, 0>>), <<0, 0, 1>>) /\ Eqs(RCross(<<0, 1, 0>>, <<0, 0, 1>>), <<1, 0, 0>>)    \* right-handed
    /\ Eqs(Mid(VCross(Ints(a), Ints(b))), x) /\ REq(BMid(VDot(Ints(a), Ints(b))), RDot(a, b))
    /\ REq(RDot(a, b), RDot(b, a))
    (* a reflection at the plane of unit normal n turns the component along n, and twice is the identity *)
    /\ LET n == <<0, 1, 0>> refl(v) == Mid(VSub(Ints(v), VScale(BMul(BReal(2), VDot(Ints(n), Ints(v))), Ints(n)))) IN
         /\ Eqs(refl(a), <<a[1], 0 - a[2], a[3]>>) /\ REq(RDot(refl(a), refl(a)), RDot(a, a))
    (* a length is the distance from the origin, and scales *)
    /\ REq(RMul(RLen(RScale(2, a)), 1), RMul(2, RLen(a))) /\ RLe(RLen(RVSub(a, b)), RMul(RAdd(1, RPow2(-200)), RAdd(RLen(a), RLen(b))))
    (* unit vectors *)
    /\ a # <<0, 0, 0>> => LET u == Mid(VUnit(Ints(a))) IN RNear(RDot(u, u), 1, RPow2(-200)) /\ RLt(0, RDot(u, a)) /\ RNearVec(RCross(u, a), <<0, 0, 0>>, RPow2(-200))
(* incident ray a, unit normal n along y, several ratios of indices: Snell's law in the vector form *)
Pat(x) == Round32(RAdd(x, 0))
RefractLaw ==
  s[1] = "vectors" =>
    LET a == s[2] n == <<0, 1, 0>> P(v) == Map1(Pat, v)
        etas == {-1, 0, 1, 2, 7}
    IN \A e \in etas, h \in {1, 8} :                \* integers, and eighths
         LET i == RScale(RDiv(1, h), a) eta == RDiv(5 * e, IF h = 1 THEN 5 ELSE 4)
             k == RSub(1, RMul(RMul(eta, eta), RSub(1, RMul(i[2], i[2]))))
             tangent == RLt(RAbs(k), RPow2(-10))
             out == IF RLt(k, 0) THEN <<RAdd(0, 0), RAdd(0, 0), RAdd(0, 0)>> ELSE <<RMul(eta, i[1]), RSub(RMul(eta, i[2]), RAdd(RMul(eta, i[2]), RSqrt(k))), RMul(eta, i[3])>>
             bad == IF RLt(k, 0) THEN <<RAdd(0, 0), RAdd(1, 0), RAdd(0, 0)>> ELSE <<RMul(eta, i[1]), RAdd(out[2], 1), RMul(eta, i[3])>>
         IN tangent \/ (Refract(P(i), P(n), <<Round32(eta)>>, P(out)) /\ ~Refract(P(i), P(n), <<Round32(eta)>>, P(bad)))
(* what the geometric functions accept: the defining value; what they refuse: its neighbours *)
Geometry ==
  s[1] = "vectors" =>
    LET a == s[2] b == s[3] P(v) == Map1(Pat, v) d == RDot(a, b) z3 == <<0, 0, 0>> n == <<0, 1, 0>> c == RCross(a, b)
        G(o, x, z) == GeomAllowed(o, x, P(z))
        refl == <<a[1], 0 - a[2], a[3]>>
    IN
    /\ G("dot", <<P(a), P(b)>>, <<d>>) /\ ~G("dot", <<P(a), P(b)>>, <<RAdd(d, 1)>>)
    /\ G("length2", <<P(a)>>, <<RDot(a, a)>>) /\ G("length", <<P(a)>>, <<RLen(a)>>) /\ ~G("length", <<P(a)>>, <<RAdd(RLen(a), RPow2(-17))>>)
    /\ G("distance", <<P(a), P(b)>>, <<RLen(RVSub(a, b))>>) /\ G("distance2", <<P(a), P(b)>>, <<RDot(RVSub(a, b), RVSub(a, b))>>)
    /\ (a # z3 => ~G("length", <<P(a)>>, <<RNeg(RLen(a))>>))
    /\ (~REq(d, 0) => ~G("distance", <<P(a), P(b)>>, <<RLen(RVSub(a, RScale(-1, b)))>>))
    /\ G("cross", <<P(a), P(b)>>, c) /\ (~Eqs(c, z3) => ~G("cross", <<P(b), P(a)>>, c))
    /\ G("reflect", <<P(a), P(n)>>, refl) /\ (a[2] # 0 => ~G("reflect", <<P(a), P(n)>>, a) /\ ~G("reflect", <<P(a), P(n)>>, <<a[1], 0, a[3]>>))
    (* the normal turned against the incident vector as the reference normal sees it; a right angle turns it *)
    /\ (b # z3 => IF RLt(d, 0) THEN G("faceforward", <<P(b), P(a), P(b)>>, b) /\ ~G("faceforward", <<P(b), P(a), P(b)>>, RScale(-1, b))
                  ELSE GeomAllowed("faceforward", <<P(b), P(a), P(b)>>, NegVec(P(b))) /\ ~G("faceforward", <<P(b), P(a), P(b)>>, b))
    /\ a # z3 => LET u == RScale(RDiv(1, RLen(a)), a) o == RCross(a, IF a[1] = 0 /\ a[2] = 0 THEN <<1, 0, 0>> ELSE <<0, 0, 1>>) k == RPow2(-6) IN
         /\ G("normalize", <<P(a)>>, u) /\ ~G("normalize", <<P(a)>>, RScale(-1, u)) /\ ~G("normalize", <<P(a)>>, RScale(RAdd(1, RPow2(-16)), u))
         /\ G("orthogonal", <<P(a)>>, o) /\ G("orthogonal", <<P(a)>>, RScale(-1, o)) /\ ~G("orthogonal", <<P(a)>>, a) /\ ~G("orthogonal", <<P(a)>>, z3)
         /\ ~G("orthogonal", <<P(a)>>, RScale(k, o)) /\ (RSgn(RSum(a)) # 0 => ~G("orthogonal", <<P(a)>>, <<RAdd(o[1], k), RAdd(o[2], k), RAdd(o[3], k)>>))
         /\ LET v == RScale(RDiv(1, RLen(o)), o) IN G("orthogonal_branchless", <<P(u)>>, v) /\ ~G("orthogonal_branchless", <<P(u)>>, u)
         /\ G("decode_octahedral", <<P(<<0, 1>>)>>, u) /\ ~G("decode_octahedral", <<P(<<0, 1>>)>>, RScale(RAdd(1, RPow2(-15)), u)) /\ ~G("decode_octahedral", <<P(<<0, 1>>)>>, z3)
         /\ G("encode_octahedral", <<P(u)>>, <<1, -1>>) /\ ~G("encode_octahedral", <<P(u)>>, <<RAdd(1, RPow2(-18)), 0>>)
         /\ G("octround", <<P(u)>>, u) /\ ~G("octround", <<P(u)>>, RScale(-1, u)) /\ ~G("octround", <<P(u)>>, <<u[1], RAdd(u[2], RPow2(-15)), u[3]>>)
Matrices ==
  s[1] = "matrices" =>
    LET a == s[2] b == s[3] v == s[4] n == Order(a) ab == Mul(a, b) IN
    /\ Eqs(Mid(MMul(Ints(a), Ints(b))), ab)
    /\ REq(Det(ab), RMul(Det(a), Det(b))) /\ REq(Det(Transposed(a)), Det(a)) /\ REq(Det(One_(n)), 1)
    /\ Eqs(Mul(a, One_(n)), a) /\ Eqs(Mul(One_(n), a), a) /\ Transposed(Transposed(a)) = a
    /\ Eqs(Transposed(ab), Mul(Transposed(b), Transposed(a)))
    (* row and column vectors; application is associative *)
    /\ LET V == Ints(v) A == Ints(a) B == Ints(b) IN
         /\ Eqs(Mid(MVec(A, MVec(B, V))), Mid(MVec(MMul(A, B), V))) /\ Eqs(Mid(VMat(VMat(V, A), B)), Mid(VMat(V, MMul(A, B))))
         /\ Eqs(Mid(VMat(V, A)), Mid(MVec(Transposed(A), V)))
         /\ \A j \in 1..n : Eqs(Mid(MVec(A, Tup([i \in 1..n |-> BReal(IF i = j THEN 1 ELSE 0)]))), Column(a, j - 1))      \* columns are images
    (* the adjugate *)
    /\ LET adj == Mid(AdjBall(a)) d == Det(a) IN
         /\ Eqs(Mul(a, adj), RScale(d, One_(n))) /\ Eqs(Mul(adj, a), RScale(d, One_(n)))
         /\ ~REq(d, 0) => LET inv == Mid(InvBall(a)) I == Mul(a, inv) IN RNearVec(I, One_(n), RPow2(-200))
    /\ REq(BMid(DetBall(a)), Det(a))
    /\ n = 2 => REq(Det(a), a[1] * a[4] - a[3] * a[2])
    /\ n = 3 => REq(Det(a), RDot(Column(a, 0), RCross(Column(a, 1), Column(a, 2))))
    (* what is accepted: the patterns of the exact result; what is refused: another matrix *)
    /\ LET A == Map1(Pat, a) B == Map1(Pat, b) R == Map1(Round32, ab) IN
         /\ MatAllowed("mm", <<A, B>>, R)
         /\ ~Eqs(ab, Mul(b, a)) => ~MatAllowed("mm", <<B, A>>, R)
         /\ a # Transposed(a) => ~MatAllowed("transpose", <<A>>, A)
         /\ MatAllowed("determinant", <<A>>, <<Round32(Det(a))>>) /\ ~MatAllowed("determinant", <<A>>, <<Round32(RAdd(1, Det(a)))>>)
         /\ LET adj == Map1(Round32, Mid(AdjBall(a))) IN /\ MatAllowed("adjugate", <<A>>, adj) /\ MatAllowed("adjugateTranspose", <<A>>, Transposed(adj))
                                                        /\ ~Eqs(Reals_(adj), Reals_(Transposed(adj))) => ~MatAllowed("adjugate", <<A>>, Transposed(adj))
=============================================================================
