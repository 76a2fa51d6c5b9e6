---------------------------- MODULE LawsTransform ----------------------------
(* What transforms, projections and quaternions of the specification must     *)
(* satisfy: the geometric meaning the definitions are written for.            *)
EXTENDS Quaternions, FiniteSets, TLC
CONSTANT Full
VARIABLE s
Z4 == {<<a, b, c, d>> : a, b, c, d \in {-1, 0, 2}}
Z4b == IF Full THEN Z4 ELSE {q \in Z4 : q[1] = 2 /\ q[4] # 0}
(* unit quaternions with rational components: numerators and a common denominator *)
UnitN == {<<<<1, 0, 0, 0>>, 1>>, <<<<0, 1, 0, 0>>, 1>>, <<<<0, 0, 1, 0>>, 1>>, <<<<0, 0, 0, 1>>, 1>>, <<<<1, 1, 1, 1>>, 2>>, <<<<1, -1, 1, -1>>, 2>>,
          <<<<3, 0, 0, 4>>, 5>>, <<<<0, -4, 0, 3>>, 5>>, <<<<0, 0, 5, 12>>, 13>>, <<<<1, 2, 4, 10>>, 11>>, <<<<2, -4, 1, 10>>, 11>>, <<<<-8, 1, 4, 0>>, 9>>,
          <<<<1, 4, 8, 0>>, 9>>, <<<<2, 3, 6, 0>>, 7>>, <<<<2, 4, 5, 6>>, 9>>, <<<<-1, -1, -1, 1>>, 2>>, <<<<4, 2, -5, 6>>, 9>>}
Q(u) == Map1(LAMBDA n : RDiv(n, u[2]), u[1])
Axes == {<<<<1, 0, 0>>, 1>>, <<<<0, 1, 0>>, 1>>, <<<<0, 0, 1>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<2, -1, 2>>, 3>>, <<<<2, 3, 6>>, 7>>, <<<<-6, 2, 3>>, 7>>, <<<<4, 0, -3>>, 5>>}
V3 == {<<a, b, c>> : a, b, c \in {-2, 1, 3}}
Init ==
  \/ \E a \in Z4, b \in Z4b : s = <<"algebra", a, b>>
  \/ \E a, b \in UnitN : s = <<"rotation", a, b>>
  \/ \E n \in Axes, k \in -23..24 : s = <<"angle", n, k>>
  \/ \E p, y, r \in -3..3 : s = <<"euler", <<p, y, r>>, 7>>
  \/ \E e \in V3, c \in {<<0, 0, 0>>, <<1, -1, 2>>, <<5, 1, 1>>}, u \in {<<0, 1, 0>>, <<1, 3, -1>>, <<0, 0, 2>>} : s = <<"view", e, c, u>>
  \/ \E l, b \in {-3, 0, 1}, w, h \in {1, 4}, n \in {1, 2}, d \in {1, 7} : s = <<"project", <<l, l + w, b, b + h, n, n + d>>>>
  \/ \E u \in UnitN, t \in {<<1, 2, 3>>, <<-4, 0, 1>>}, sc \in {<<1, 1, 1>>, <<2, 3, 1>>, <<1, 5, 7>>} : s = <<"compose", u, t, sc>>
  \/ \E a, b \in UnitN, k \in 0..8 : s = <<"slerp", a, b, k>>
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Tiny == RPow2(-180)
Eqs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : REq(x[i], y[i])
Mid(b) == Map1(BMid, b)
P(v) == Map1(Round32, v)
RB(v) == Map1(BReal, v)
Mul3(a, b) == Tup([k \in 1..9 |-> RSum(Tup([j \in 1..3 |-> RMul(a[3 * (j - 1) + ((k - 1) % 3) + 1], b[3 * ((k - 1) \div 3) + j])]))])
Norm2(q) == RDot(q, q)
I3 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
T3(m) == Tup([k \in 1..9 |-> m[3 * ((k - 1) % 3) + ((k - 1) \div 3) + 1]])
Near(x, y) == Len(x) = Len(y) /\ RNearVec(x, y, Tiny)
Algebra ==
  s[1] = "algebra" =>
    LET a == s[2] b == s[3] c == <<1, -2, 0, 3>> ab == RHam(a, b) IN
    /\ REq(Norm2(ab), RMul(Norm2(a), Norm2(b)))
    /\ Eqs(RConj(ab), RHam(RConj(b), RConj(a))) /\ Eqs(RHam(ab, c), RHam(a, RHam(b, c)))
    /\ Eqs(RHam(a, <<0, 0, 0, 1>>), a) /\ Eqs(RHam(a, RConj(a)), <<0, 0, 0, RDot(a, a)>>)
    /\ Eqs(RHam(<<1, 0, 0, 0>>, <<0, 1, 0, 0>>), <<0, 0, 1, 0>>) /\ Eqs(RHam(<<0, 1, 0, 0>>, <<0, 0, 1, 0>>), <<1, 0, 0, 0>>)
    /\ Eqs(Mid(BHam(RB(a), RB(b))), ab)
    /\ LET F(v) == P(Map1(LAMBDA x : RAdd(x, 0), v)) L(o, t, z) == QuatAllowed(o, <<F(a), F(b), <<t>>>>, <<z>>)
           half == RScale(RDiv(1, 2), Map2(RAdd, a, b)) IN
         /\ L("lerp", PZero, F(a)) /\ L("lerp", One, F(b)) /\ L("lerp", 1056964608, P(half))
         /\ a # b => ~L("lerp", PZero, F(b)) /\ ~L("lerp", One, F(a)) /\ ~L("lerp", 1056964608, F(b)) /\ (~REq(RDot(a, a), 1) /\ ~REq(RDot(a, a), 0) => ~L("nlerp", PZero, F(a)))
         /\ ~REq(RDot(half, half), 0) => LET u == RScale(RDiv(1, RLen(half)), half) IN
              L("nlerp", 1056964608, P(u)) /\ ~L("nlerp", 1056964608, P(RScale(-1, u))) /\ ~L("nlerp", 1056964608, P(RScale(RAdd(1, RPow2(-14)), u)))
    /\ QuatAllowed("mul", <<P(Map1(LAMBDA x : RAdd(x, 0), a)), P(Map1(LAMBDA x : RAdd(x, 0), b))>>, <<P(ab)>>)
    /\ ~Eqs(ab, RHam(b, a)) => ~QuatAllowed("mul", <<P(Map1(LAMBDA x : RAdd(x, 0), b)), P(Map1(LAMBDA x : RAdd(x, 0), a))>>, <<P(ab)>>)
Rotation ==
  s[1] = "rotation" =>
    LET a == Q(s[2]) b == Q(s[3]) Ra == RotOf(a) Rb == RotOf(b) v == <<1, -2, 5>> IN
    /\ Near(RotOf(RHam(a, b)), Mul3(Ra, Rb)) /\ Near(Mul3(Ra, T3(Ra)), I3) /\ RNear(Det3(SubSeq(Ra, 1, 3), SubSeq(Ra, 4, 6), SubSeq(Ra, 7, 9)), 1, Tiny)
    /\ Near(RotOf(RConj(a)), T3(Ra)) /\ Near(RotOf(RScale(-1, a)), Ra)
    (* R v is the vector part of a v a* *)
    /\ LET h == RHam(RHam(a, v \o <<0>>), RConj(a)) IN Near(SubSeq(h, 1, 3), RMatVec3(Ra, v)) /\ RNear(h[4], 0, Tiny)
    /\ IsRotation(Ra) /\ ~IsRotation(RScale(-1, Ra)) /\ ~IsRotation(RScale(2, Ra))
    (* what is accepted and refused of conversions and rotated vectors *)
    /\ ToMatOK(P(a), P(Ra)) /\ (~Near(Ra, T3(Ra)) => ~ToMatOK(P(a), P(T3(Ra)))) /\ CastOK(P(Ra), P(a)) /\ CastOK(P(Ra), P(RScale(-1, a)))
    /\ ~Near(Ra, Rb) => ~CastOK(P(Ra), P(b)) /\ ~ToMatOK(P(a), P(Rb))
    /\ RotateOK(a, v, P(RMatVec3(Ra, v))) /\ (~Near(RMatVec3(Ra, v), RMatVec3(T3(Ra), v)) => ~RotateOK(a, v, P(RMatVec3(T3(Ra), v))))
    (* orientation from a direction: the rotated axes are right, up and (minus) direction *)
    /\ LET x == SubSeq(Ra, 1, 3) y == SubSeq(Ra, 4, 6) z == SubSeq(Ra, 7, 9) IN
         /\ LookQOK(P(z), P(y), 1, P(a)) /\ LookQOK(P(RScale(-1, z)), P(y), -1, P(a))
         /\ ~LookQOK(P(z), P(y), -1, P(a)) /\ ~LookQOK(P(z), P(x), 1, P(a))
    (* the rotation from u to v about their common normal *)
    /\ LET ax == SubSeq(a, 1, 3)
           u == RCross(ax, IF REq(ax[2], 0) /\ REq(ax[3], 0) THEN <<0, 1, 0>> ELSE <<1, 0, 0>>)
           w == RMatVec3(Ra, u)
       IN RLt(RPow2(-6), RDot(ax, ax)) =>
            /\ FromToOK(P(u), P(RScale(3, w)), P(a)) /\ FromToOK(P(u), P(w), P(RScale(-1, a))) /\ FromToOK(P(w), P(u), P(RConj(a)))
            /\ ~Near(u, RScale(-1, w)) => ~FromToOK(P(w), P(u), P(a)) /\ ~FromToOK(P(u), P(RScale(-1, w)), P(a))
            /\ ~FromToOK(P(u), P(w), P(RScale(2, a))) /\ ~FromToOK(P(u), P(u), P(a))
            (* not with a turn about the vector itself before; of opposite vectors every half turn will do *)
            /\ ~Near(u, RScale(-1, w)) => LET n == RScale(RDiv(RDiv(3, 5), RLen(u)), u) IN ~FromToOK(P(u), P(w), P(RHam(a, n \o <<RDiv(4, 5)>>)))
Pi12(k) == RMul(RDiv(k, 12), RPi)
Angle ==
  s[1] = "angle" =>
    LET n == Q(s[2]) th == Pi12(s[3]) q == Mid(AngleAxis(BReal(th), RB(n))) R == RotOf(q) m == Mid(RotationM(BReal(th), RB(n))) IN
    /\ RNear(Norm2(q), 1, Tiny) /\ Near(R, Upper3(m)) /\ Near(RMatVec3(R, n), n)
    /\ RNear(RAdd(RAdd(R[1], R[5]), R[9]), RAdd(1, RMul(2, RCos(th))), Tiny)
    /\ Eqs(<<m[4], m[8], m[12], m[13], m[14], m[15], m[16]>>, <<0, 0, 0, 0, 0, 0, 1>>)
    (* a quarter turn about x takes y to z: right-handed *)
    /\ (s[2][1] = <<1, 0, 0>> /\ s[3] = 6) => Near(RMatVec3(R, <<0, 1, 0>>), <<0, 0, 1>>)
    /\ (s[2][1] = <<0, 0, 1>> /\ s[3] = 6) => Near(RMatVec3(R, <<1, 0, 0>>), <<0, 1, 0>>)
    /\ s[3] \in 1..23 =>                            \* angle in (0, 2 pi) and axis are recovered
         LET f == P(q) IN /\ AngleOK(f, Round32(th)) /\ QuatAllowed("axis", <<f>>, <<P(n)>>)
                          /\ ~AngleOK(f, Round32(RAdd(th, RPow2(-7)))) /\ ~QuatAllowed("axis", <<f>>, <<P(RScale(-1, n))>>)
Euler_ ==
  s[1] = "euler" =>
    LET e == Map1(LAMBDA k : RMul(RDiv(k, 7), RPi), s[2])                \* within (-pi/2, pi/2)
        q == Mid(FromEuler(RB(e)))
        X(t) == RotOf(Mid(AngleAxis(BReal(t), RB(<<1, 0, 0>>)))) Y(t) == RotOf(Mid(AngleAxis(BReal(t), RB(<<0, 1, 0>>)))) Z(t) == RotOf(Mid(AngleAxis(BReal(t), RB(<<0, 0, 1>>))))
    IN /\ RNear(Norm2(q), 1, Tiny) /\ Near(RotOf(q), Mul3(Z(e[3]), Mul3(Y(e[2]), X(e[1]))))            \* about x, then y, then z
       /\ EulerOK(P(q), P(e)) /\ \A i \in 1..3 : RNear(BMid(Euler(P(q))[i]), e[i], RPow2(-18))
       /\ QuatAllowed("fromeuler", <<P(e)>>, <<P(q)>>)
       /\ e[1] # e[3] => ~EulerOK(P(q), P(<<e[3], e[2], e[1]>>))
H(p) == <<p[1], p[2], p[3], 1>>
Apply(m, p) == Mid(MVec(m, RB(p)))
View ==
  s[1] = "view" =>
    LET eye == s[2] ctr == s[3] up == s[4] f == RVSub(ctr, eye) d == RLen(f) x == RCross(f, up) IN
    ~REq(RNorm1(x), 0) =>
    LET m == LookRH(RB(eye), RB(ctr), RB(up)) l == LookLH(RB(eye), RB(ctr), RB(up)) U3(k) == Upper3(Mid(k)) IN
    /\ Near(Apply(m, H(eye)), <<0, 0, 0, 1>>) /\ Near(Apply(l, H(eye)), <<0, 0, 0, 1>>)
    /\ Near(Apply(m, H(ctr)), <<0, 0, RNeg(d), 1>>) /\ Near(Apply(l, H(ctr)), <<0, 0, d, 1>>)
    /\ \A k \in {m, l} : /\ Near(Mul3(U3(k), T3(U3(k))), I3) /\ IsRotation(U3(k))
                         /\ LET v == Apply(k, up \o <<0>>) IN RNear(v[1], 0, Tiny) /\ RLt(0, v[2])      \* up is up
Project ==
  s[1] = "project" =>
    LET v == s[2] l == v[1] r == v[2] b == v[3] t == v[4] n == v[5] f == v[6] BB(k) == BReal(v[k]) IN
    \A lo \in {-1, 0}, dir \in {-1, 1} :
      /\ LET m == OrthoM(BB(1), BB(2), BB(3), BB(4), BB(5), BB(6), lo, dir) IN
           /\ Near(Apply(m, <<l, b, dir * n, 1>>), <<-1, -1, lo, 1>>) /\ Near(Apply(m, <<r, t, dir * f, 1>>), <<1, 1, 1, 1>>)
           /\ Near(Apply(m, <<l, t, dir * f, 1>>), <<-1, 1, 1, 1>>)
      (* field of view of a right angle: the edge is one up for one forward; aspect r - l to 1 *)
      /\ LET m == PerspM(BReal(RDiv(RPi, 2)), BReal(r - l), BB(5), BB(6), lo, dir)
             ndc(p) == LET c == Apply(m, p) IN <<RDiv(c[1], c[4]), RDiv(c[2], c[4]), RDiv(c[3], c[4])>>
         IN /\ Near(ndc(<<(r - l) * n, n, dir * n, 1>>), <<1, 1, lo>>) /\ Near(ndc(<<0 - (r - l) * f, 0 - f, dir * f, 1>>), <<-1, -1, 1>>)
            /\ RLt(0, Apply(m, <<0, 0, dir * n, 1>>)[4])
(* translation after rotation after scaling, from left to right in matrix order *)
Compose ==
  s[1] = "compose" =>
    LET q == Q(s[2]) R == RotOf(q) t == s[3] sc == s[4]
        m == Tup([k \in 1..16 |-> LET c == (k - 1) \div 4 r == (k - 1) % 4 IN
               IF c < 3 THEN (IF r < 3 THEN RMul(R[3 * c + r + 1], sc[c + 1]) ELSE 0) ELSE (IF r < 3 THEN t[r + 1] ELSE 1)])
        F(v) == P(Map1(LAMBDA x : RAdd(x, 0), v))
        p == <<3, -1, 2, 1>>
        RM == Tup([k \in 1..16 |-> LET c == (k - 1) \div 4 r == (k - 1) % 4 IN IF c < 3 /\ r < 3 THEN BReal(R[3 * c + r + 1]) ELSE BReal(IF c = r THEN 1 ELSE 0)])
        TRS == MMul(MMul(TranslationM(RB(t)), RM), ScalingM(RB(sc)))
    IN /\ Near(Mid(TRS), m)
       /\ LET y == RMatVec3(R, <<sc[1] * 3, 0 - sc[2], sc[3] * 2>>) IN Near(Apply(TRS, p), <<RAdd(y[1], t[1]), RAdd(y[2], t[2]), RAdd(y[3], t[3]), 1>>)
       /\ Decomposable(F(m)) => /\ DecomposeOK(F(m), F(sc), F(q), F(t)) /\ DecomposeOK(F(m), F(sc), F(RScale(-1, q)), F(t))
                                /\ ~DecomposeOK(F(m), F(<<sc[1], sc[2] + 1, sc[3]>>), F(q), F(t))
                                /\ ~DecomposeOK(F(m), F(sc), F(q), F(<<t[2], t[1], t[3]>>))
                                (* two axes turned over: the same matrix, but it mirrors nothing *)
                                /\ ~DecomposeOK(F(m), F(<<0 - sc[1], 0 - sc[2], sc[3]>>), F(RHam(q, <<0, 0, 1, 0>>)), F(t))
                                /\ ~Near(R, T3(R)) => ~DecomposeOK(F(m), F(sc), F(RConj(q)), F(t))
       /\ Decomposable(F(Mid(MMul(TranslationM(RB(t)), ScalingM(RB(sc))))))
Slerp_ ==
  s[1] = "slerp" =>
    LET x == Q(s[2]) y == Q(s[3]) c == RDot(x, y) t == RDiv(s[4], 8) z == SlerpR(x, y, c, t) th == AcosIn(c) IN
    RLt(RMul(-1, RSub(1, RPow2(-20))), c) =>
      /\ RNear(Norm2(z), 1, RPow2(-28)) /\ RNear(RDot(z, x), RCos(RMul(t, th)), RPow2(-28)) /\ RNear(RDot(z, y), RCos(RMul(RSub(1, t), th)), RPow2(-28))
      /\ RNearVec(z, SlerpR(y, x, c, RSub(1, t)), RPow2(-28))
      /\ s[4] = 0 => RNearVec(z, x, RPow2(-28))
      /\ s[4] = 8 => RNearVec(z, y, RPow2(-28))
      (* accepted, towards the nearer of y and -y *)
      /\ RLt(0, c) => SlerpOK(P(x), P(y), Round32(t), P(z)) /\ SlerpOK(P(x), P(RScale(-1, y)), Round32(t), P(z))
      (* not the long way *)
      /\ (RLt(RPow2(-10), c) /\ RLt(c, RSub(1, RPow2(-4))) /\ s[4] \in 1..7) => ~SlerpOK(P(x), P(y), Round32(t), P(SlerpR(x, RScale(-1, y), RNeg(c), t)))
                                                                                /\ ~SlerpOK(P(x), P(RScale(-1, y)), Round32(t), P(SlerpR(x, RScale(-1, y), RNeg(c), t)))
      /\ (RLt(RPow2(-10), c) /\ RLt(c, RSub(1, RPow2(-4))) /\ s[4] \in 1..8) => ~SlerpOK(P(x), P(y), Round32(RDiv(s[4] - 1, 8)), P(z))
=============================================================================
