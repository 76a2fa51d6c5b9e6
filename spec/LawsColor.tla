------------------------------ MODULE LawsColor ------------------------------
(* What the transfer curves and the constants of the specification must       *)
(* satisfy: known values, continuity at the joints, inverse curves, known     *)
(* decimal digits.                                                            *)
EXTENDS Color, Constants, TLC
VARIABLE s
Init == (\E k \in 0..256 : s = <<"curve", k>>) \/ (\E c \in ConstantNames : s = <<"constant", c>>)
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
F(n, d) == Round32(RDiv(n, d))
Enc(c) == IF RLe(R32(c), EncT) THEN EncLow(c) ELSE EncHigh(c, G24)
Dec_(c) == IF RLe(R32(c), DecT) THEN DecLow(c) ELSE DecHigh(c, G24)
Curve ==
  s[1] = "curve" =>
    LET c == F(s[2], 256) e == BRound(Enc(c)) d == BRound(Dec_(c)) IN
    (* in [0, 1], fixed at the ends, above and below the diagonal *)
    /\ FLe(PZero, e) /\ FLe(e, F(1000001, 1000000)) /\ FLe(PZero, d) /\ FLe(d, F(1000001, 1000000))
    /\ s[2] = 0 => FZero(e) /\ FZero(d)
    /\ s[2] = 256 => RNear(R32(e), 1, RPow2(-20)) /\ RNear(R32(d), 1, RPow2(-20))
    /\ s[2] \in 1..255 => FLt(c, e) /\ FLt(d, c)
    (* monotone, inverse to each other *)
    /\ s[2] < 256 => FLt(e, BRound(Enc(F(s[2] + 1, 256)))) /\ FLt(d, BRound(Dec_(F(s[2] + 1, 256))))
    /\ RNear(BMid(Dec_(e)), R32(c), RPow2(-15)) /\ RNear(BMid(Enc(d)), R32(c), RPow2(-15))
    /\ EncodeOK(c, G24, e) /\ DecodeOK(c, G24, d)
    /\ s[2] \in 4..252 => ~EncodeOK(c, G24, d) /\ ~DecodeOK(c, G24, e) /\ ~EncodeOK(c, G24, FAdd(e, F(1, 1000))) /\ ~DecodeOK(c, G24, FAdd(d, F(1, 1000)))
    (* the two branches meet at the joints *)
    /\ LET t == Round32(EncT) IN RNear(BMid(EncLow(t)), BMid(EncHigh(t, G24)), RPow2(-18))
    /\ LET t == Round32(DecT) IN RNear(BMid(DecLow(t)), BMid(DecHigh(t, G24)), RPow2(-18))
    (* the approximation stays within two thousandths of the curve *)
    /\ s[2] > 0 => ApproxOK(c, BRound(ApproxBall(c)))
    (* middle grey: 0.5 encodes to 0.7353569..., 0.5 decodes to 0.2140411... *)
    /\ s[2] = 128 => RNear(BMid(Enc(c)), RDiv(7353569, 10000000), RPow2(-20)) /\ RNear(BMid(Dec_(c)), RDiv(2140411, 10000000), RPow2(-20))
    /\ Clamp01(F(0 - s[2], 7)) \in {PZero, NZero} /\ Clamp01(c) = c /\ Clamp01(F(257 + s[2], 256)) = One
    (* outside [0, 1] the encoder clamps and the decoder does not; alpha is passed through *)
    /\ LET n == F(0 - s[2] - 1, 7) b == F(257 + s[2], 256) IN
         /\ EncodeOK(n, G24, PZero) /\ EncodeOK(b, G24, One) /\ ~EncodeOK(n, G24, BRound(EncLow(n))) /\ ~EncodeOK(b, G24, One + 100)
         /\ DecodeOK(n, G24, BRound(DecLow(n))) /\ ~DecodeOK(n, G24, PZero) /\ DecodeOK(b, G24, BRound(DecHigh(b, G24))) /\ ~DecodeOK(b, G24, One)
    /\ LET v == <<c, One, PZero, c>> o == <<e, One, PZero, c>> G == <<v, <<G24>>>> IN
         /\ ColorAllowed("toSRGBg", G, o) /\ ColorAllowed("toLinearg", G, <<d, One, PZero, c>>)
         /\ s[2] \in 1..255 => ~ColorAllowed("toSRGBg", G, <<e, One, PZero, e>>) /\ ~ColorAllowed("toSRGBg", G, <<One, e, PZero, c>>) /\ ~ColorAllowed("toLinear", <<v>>, <<d, One, PZero, d>>)
         /\ ~ColorAllowed("toSRGBg", G, <<e, One, PZero>>)
(* decimal digits, from tables: nine of them *)
Digits == [epsilon |-> <<119209290, -15>>, zero |-> <<0, 0>>, one |-> <<1, 0>>, pi |-> <<314159265, -8>>, two_pi |-> <<628318531, -8>>, root_pi |-> <<177245385, -8>>,
  half_pi |-> <<157079633, -8>>, three_over_two_pi |-> <<471238898, -8>>, quarter_pi |-> <<785398163, -9>>, one_over_pi |-> <<318309886, -9>>,
  one_over_two_pi |-> <<159154943, -9>>, two_over_pi |-> <<636619772, -9>>, four_over_pi |-> <<127323954, -8>>, two_over_root_pi |-> <<112837917, -8>>,
  one_over_root_two |-> <<707106781, -9>>, root_half_pi |-> <<125331414, -8>>, root_two_pi |-> <<250662827, -8>>, root_ln_four |-> <<117741002, -8>>,
  e |-> <<271828183, -8>>, euler |-> <<577215665, -9>>, root_two |-> <<141421356, -8>>, root_three |-> <<173205081, -8>>, root_five |-> <<223606798, -8>>,
  ln_two |-> <<693147181, -9>>, ln_ten |-> <<230258509, -8>>, ln_ln_two |-> <<-366512921, -9>>, third |-> <<333333333, -9>>, two_thirds |-> <<666666667, -9>>,
  golden_ratio |-> <<161803399, -8>>]
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN RAdd(1, 0) ELSE RDiv(Ten(k + 1), 10)
ConstantLaw ==
  s[1] = "constant" =>
    LET d == Digits[s[2]] x == ConstantReal(s[2]) IN
    /\ RLe(RAbs(RSub(x, RMul(d[1], Ten(d[2])))), RMul(RDiv(51, 100), Ten(d[2])))
    /\ ConstantNames = DOMAIN Digits
    /\ RLe(RAbs(RSub(R32(ConstantResult(s[2])[1]), x)), RMul(RPow2(-24), RAbs(x)))
=============================================================================
