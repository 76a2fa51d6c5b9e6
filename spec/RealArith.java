// TLC module override for RealArith.tla.
//
// TLC cannot evaluate the operators of the standard module Reals.  This class gives the operators of
// RealArith.tla, whose TLA+ definitions are over the real numbers, an executable meaning:
//   * exact dyadic rationals (BigInteger * 2^k) for values, sums, products and comparisons;
//   * quotients, roots and elementary functions to 200 or more significant bits, some 170 bits more than
//     single precision keeps;
//   * "balls": a real together with a bound on the error that any reasonable single-precision evaluation
//     order of the same formula may make.
// spec/MC_Arith.tla checks this class against the mathematical definitions.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class RealArith {
  static final int PREC = 256;          // significant bits kept by inexact operations
  static final int BIG = 2048;          // significant bits kept by exact operations (never reached by float32 inputs in practice)
  static final double U = 0x1p-24;      // unit roundoff of binary32
  static final double ETA = 0x1p-149;   // smallest subnormal
  static final double OVER = 0x1p126;   // beyond this an intermediate may overflow
  static final double K = 8;            // safety factor of the acceptance test

  // ---------------------------------------------------------------- dyadic numbers
  static final class Dy implements Comparable<Dy> {
    final BigInteger m; final int e;
    Dy(BigInteger m, int e) { this.m = m; this.e = e; }
    static Dy of(BigInteger m, int e) {
      if (m.signum() == 0) return ZERO;
      int bl = m.bitLength();
      if (bl > BIG) { int s = bl - BIG; m = m.shiftRight(s); e += s; }
      int tz = m.getLowestSetBit();
      if (tz > 0) { m = m.shiftRight(tz); e += tz; }
      return new Dy(m, e);
    }
    static Dy of(long v) { return of(BigInteger.valueOf(v), 0); }
    static Dy of(double d) {
      if (d == 0) return ZERO;
      long b = Double.doubleToRawLongBits(d);
      int ex = (int) ((b >> 52) & 0x7ff);
      long mm = b & 0xfffffffffffffL;
      if (ex == 0) ex = 1; else mm |= 1L << 52;
      return of(BigInteger.valueOf(b < 0 ? -mm : mm), ex - 1075);
    }
    static final Dy ZERO = new Dy(BigInteger.ZERO, 0);
    static final Dy ONE = new Dy(BigInteger.ONE, 0);
    static final Dy HALF = new Dy(BigInteger.ONE, -1);
    int sgn() { return m.signum(); }
    Dy neg() { return new Dy(m.negate(), e); }
    Dy abs() { return m.signum() < 0 ? neg() : this; }
    Dy add(Dy o) {
      if (m.signum() == 0) return o;
      if (o.m.signum() == 0) return this;
      int d = e - o.e;
      if (Math.abs((long) d) > 4 * BIG) return (top() > o.top()) ? this : o;
      if (d >= 0) return of(m.shiftLeft(d).add(o.m), o.e);
      return of(o.m.shiftLeft(-d).add(m), e);
    }
    Dy sub(Dy o) { return add(o.neg()); }
    Dy mul(Dy o) { return of(m.multiply(o.m), e + o.e); }
    Dy shl(int k) { return m.signum() == 0 ? this : new Dy(m, e + k); }
    int top() { return m.signum() == 0 ? Integer.MIN_VALUE / 2 : e + m.abs().bitLength(); }   // |x| < 2^top
    Dy prec(int p) {          // truncate to p significant bits
      int bl = m.abs().bitLength();
      if (bl <= p) return this;
      int s = bl - p;
      return of(m.signum() < 0 ? m.negate().shiftRight(s).negate() : m.shiftRight(s), e + s);
    }
    Dy div(Dy o) {
      if (o.m.signum() == 0) throw new ArithmeticException("division by zero");
      if (m.signum() == 0) return ZERO;
      int s = PREC + o.m.bitLength() - m.bitLength() + 2;
      if (s < 0) s = 0;
      BigInteger[] qr = m.shiftLeft(s).divideAndRemainder(o.m);
      BigInteger q = qr[0];
      int ee = e - o.e - s;
      if (qr[1].signum() != 0) {   // sticky bit: never mistaken for a tie
        q = q.shiftLeft(1).add(BigInteger.valueOf(m.signum() * o.m.signum()));
        ee -= 1;
      }
      return of(q, ee);
    }
    Dy sqrt() {
      if (m.signum() < 0) throw new ArithmeticException("square root of a negative number");
      if (m.signum() == 0) return ZERO;
      int s = 2 * PREC - m.bitLength();
      if (s < 0) s = 0;
      if (((e - s) & 1) != 0) s++;
      BigInteger x = m.shiftLeft(s);
      BigInteger r = x.sqrt();
      int ee = (e - s) / 2;
      if (!r.multiply(r).equals(x)) { r = r.shiftLeft(1).add(BigInteger.ONE); ee -= 1; }
      return of(r, ee);
    }
    BigInteger floor() { return e >= 0 ? m.shiftLeft(e) : (-e > 4 * BIG ? BigInteger.valueOf(m.signum() < 0 ? -1 : 0) : m.shiftRight(-e)); }
    public int compareTo(Dy o) {
      int a = m.signum(), b = o.m.signum();
      if (a != b) return Integer.compare(a, b);
      if (a == 0) return 0;
      int t = top(), u = o.top();
      if (t != u) return (t > u) == (a > 0) ? 1 : -1;
      int d = e - o.e;
      return d >= 0 ? m.shiftLeft(d).compareTo(o.m) : m.compareTo(o.m.shiftLeft(-d));
    }
    double dbl() {
      if (m.signum() == 0) return 0;
      int bl = m.abs().bitLength();
      int s = bl > 60 ? bl - 60 : 0;
      double d = (m.signum() < 0 ? m.negate().shiftRight(s).negate() : m.shiftRight(s)).doubleValue();
      long ex = (long) e + s;
      if (ex > 1100) return d < 0 ? Double.NEGATIVE_INFINITY : Double.POSITIVE_INFINITY;
      if (ex < -1200) return 0;
      return Math.scalb(Math.scalb(d, (int) ex / 2), (int) (ex - ex / 2));
    }
    public String toString() {
      if (e >= 0 && e < 64) return m.shiftLeft(e).toString();
      if (e < 0 && e > -16 && m.bitLength() < 40) return m + "/" + (1 << -e);
      return String.format("%.12g", dbl());
    }
  }

  // nearest binary32, ties to even
  static int toBits(Dy x) {
    if (x.m.signum() == 0) return 0;
    int sign = x.m.signum() < 0 ? 0x80000000 : 0;
    BigInteger m = x.m.abs();
    int bl = m.bitLength();
    int top = x.e + bl;                    // 2^(top-1) <= |x| < 2^top
    if (top > 129) return sign | 0x7f800000;
    int lsb = Math.max(top - 24, -149);    // exponent of the last place
    int s = lsb - x.e;
    BigInteger q;
    if (s <= 0) q = m.shiftLeft(-s);
    else if (s > bl + 1) q = BigInteger.ZERO;
    else {
      q = m.shiftRight(s);
      BigInteger rem = m.subtract(q.shiftLeft(s));
      int c = rem.compareTo(BigInteger.ONE.shiftLeft(s - 1));
      if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
    }
    if (q.signum() == 0) return sign;
    if (q.bitLength() == 25) { q = q.shiftRight(1); lsb++; }
    if (q.bitLength() < 24) return sign | q.intValue();          // subnormal
    int ex = lsb + 150;
    if (ex >= 255) return sign | 0x7f800000;
    return sign | (ex << 23) | (q.intValue() & 0x7fffff);
  }
  static boolean finite(int b) { return (b & 0x7f800000) != 0x7f800000; }
  static Dy ofBits(int b) {
    int ex = (b >>> 23) & 255; long mm = b & 0x7fffff;
    if (ex == 0) ex = 1; else mm |= 1 << 23;
    return Dy.of(BigInteger.valueOf(b < 0 ? -mm : mm), ex - 150);
  }

  // ---------------------------------------------------------------- elementary functions (fixed point)
  static final int FX = 320;
  static final BigInteger FONE = BigInteger.ONE.shiftLeft(FX);
  static BigInteger fx(Dy x) { int s = x.e + FX; return s >= 0 ? x.m.shiftLeft(s) : x.m.shiftRight(-s); }
  static Dy unfx(BigInteger f) { return Dy.of(f, -FX).prec(PREC); }
  static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(FX); }
  static BigInteger atanInv(int n) {   // atan(1/n)
    BigInteger t = FONE.divide(BigInteger.valueOf(n)), s = t, n2 = BigInteger.valueOf((long) n * n);
    for (int k = 1; t.signum() != 0; k++) {
      t = t.divide(n2);
      BigInteger q = t.divide(BigInteger.valueOf(2 * k + 1));
      s = (k & 1) == 1 ? s.subtract(q) : s.add(q);
    }
    return s;
  }
  static final BigInteger FPI = atanInv(5).shiftLeft(4).subtract(atanInv(239).shiftLeft(2));
  static final Dy PI = Dy.of(FPI, -FX);
  static BigInteger atanhInv(int n) {
    BigInteger t = FONE.divide(BigInteger.valueOf(n)), s = t, n2 = BigInteger.valueOf((long) n * n);
    for (int k = 1; t.signum() != 0; k++) { t = t.divide(n2); s = s.add(t.divide(BigInteger.valueOf(2 * k + 1))); }
    return s;
  }
  static final BigInteger FLN2 = atanhInv(3).shiftLeft(1);
  static final Dy LN2 = Dy.of(FLN2, -FX);

  static Dy exp(Dy x) {
    if (x.sgn() == 0) return Dy.ONE;
    if (x.top() > 20) return x.sgn() > 0 ? Dy.ONE.shl(1 << 20) : Dy.ONE.shl(-(1 << 20));
    BigInteger f = fx(x);
    int k = f.divide(FLN2).intValue();
    BigInteger r = f.subtract(FLN2.multiply(BigInteger.valueOf(k)));
    r = r.shiftRight(8);
    BigInteger t = FONE, s = FONE;
    for (int i = 1; t.signum() != 0 && i < 200; i++) { t = fmul(t, r).divide(BigInteger.valueOf(i)); s = s.add(t); if (t.bitLength() < 2) break; }
    for (int i = 0; i < 8; i++) s = fmul(s, s);
    return Dy.of(s, k - FX).prec(PREC);
  }
  static Dy log(Dy x) {
    if (x.sgn() <= 0) throw new ArithmeticException("logarithm of a non-positive number");
    int k = x.top();
    Dy y = x.shl(-k);                        // in [1/2, 1)
    if (y.compareTo(Dy.of(0.70710678)) < 0) { y = y.shl(1); k--; }
    Dy t = y.sub(Dy.ONE).div(y.add(Dy.ONE));
    if (k == 0 && t.sgn() == 0) return Dy.ZERO;
    // 2 atanh(t), relative accuracy kept by scaling
    int sc = Math.max(0, -t.top() - 2);
    BigInteger f = fx(t.shl(sc));            // t * 2^sc
    BigInteger t2 = fx(t.mul(t));
    BigInteger p = f, s = f;
    for (int i = 1; p.signum() != 0 && i < 400; i++) { p = fmul(p, t2); s = s.add(p.divide(BigInteger.valueOf(2 * i + 1))); if (p.bitLength() < 2) break; }
    Dy r = Dy.of(s, 1 - FX - sc);
    return r.add(LN2.mul(Dy.of(k))).prec(PREC);
  }
  static Dy[] sincos(Dy x) {
    if (x.sgn() == 0) return new Dy[]{Dy.ZERO, Dy.ONE};
    if (x.top() > 130) throw new ArithmeticException("trigonometric argument too large");
    BigInteger n = x.div(PI.shl(-1)).add(Dy.HALF).floor();
    Dy r = x.sub(PI.shl(-1).mul(Dy.of(n, 0)));
    int sc = 0;
    // |r| <= pi/4 ; series
    Dy r2 = r.mul(r).prec(FX);
    BigInteger f2 = fx(r2);
    BigInteger t = FONE, s = FONE;           // sin(r)/r
    for (int i = 1; i < 200; i++) { t = fmul(t, f2).divide(BigInteger.valueOf((2L * i) * (2 * i + 1))).negate(); if (t.bitLength() < 3) break; s = s.add(t); }
    Dy sn = Dy.of(s, -FX).mul(r).prec(PREC);
    t = FONE; s = FONE;
    for (int i = 1; i < 200; i++) { t = fmul(t, f2).divide(BigInteger.valueOf((2L * i) * (2 * i - 1))).negate(); if (t.bitLength() < 3) break; s = s.add(t); }
    Dy cs = Dy.of(s, -FX).prec(PREC);
    int q = n.and(BigInteger.valueOf(3)).intValue();
    switch (q) {
      case 0: return new Dy[]{sn, cs};
      case 1: return new Dy[]{cs, sn.neg()};
      case 2: return new Dy[]{sn.neg(), cs.neg()};
      default: return new Dy[]{cs.neg(), sn};
    }
  }
  static Dy atan(Dy x) {
    if (x.sgn() == 0) return Dy.ZERO;
    if (x.sgn() < 0) return atan(x.neg()).neg();
    if (x.compareTo(Dy.ONE) > 0) return PI.shl(-1).sub(atan(Dy.ONE.div(x))).prec(PREC);
    int h = 0;
    while (x.top() > -6) { x = x.div(Dy.ONE.add(Dy.ONE.add(x.mul(x)).prec(2 * PREC).sqrt())); h++; }
    Dy x2 = x.mul(x).prec(FX);
    BigInteger f2 = fx(x2);
    BigInteger p = FONE, s = FONE;
    for (int i = 1; i < 400; i++) { p = fmul(p, f2).negate(); if (p.bitLength() < 3) break; s = s.add(p.divide(BigInteger.valueOf(2 * i + 1))); }
    return Dy.of(s, -FX).mul(x).shl(h).prec(PREC);
  }
  static Dy atan2(Dy y, Dy x) {
    if (x.sgn() == 0 && y.sgn() == 0) return Dy.ZERO;
    if (x.sgn() == 0) return y.sgn() > 0 ? PI.shl(-1) : PI.shl(-1).neg();
    Dy a = atan(y.div(x));
    if (x.sgn() > 0) return a;
    return y.sgn() >= 0 ? a.add(PI) : a.sub(PI);
  }
  static Dy asin(Dy x) {
    Dy c = Dy.ONE.sub(x.mul(x));
    if (c.sgn() < 0) throw new ArithmeticException("asin out of domain");
    return atan2(x, c.sqrt());
  }
  static Dy acos(Dy x) {
    Dy c = Dy.ONE.sub(x.mul(x));
    if (c.sgn() < 0) throw new ArithmeticException("acos out of domain");
    return atan2(c.sqrt(), x);
  }
  static Dy cbrt(Dy x) {
    if (x.sgn() == 0) return x;
    if (x.sgn() < 0) return cbrt(x.neg()).neg();
    // integer cube root of m * 2^s with e - s divisible by 3
    int s = 3 * 256; while (Math.floorMod(x.e - s, 3) != 0) s++;
    BigInteger v = x.m.shiftLeft(s);
    BigInteger r = BigInteger.ONE.shiftLeft((v.bitLength() + 2) / 3);
    while (true) {
      BigInteger t = r.shiftLeft(1).add(v.divide(r.multiply(r))).divide(BigInteger.valueOf(3));
      if (t.compareTo(r) >= 0) break;
      r = t;
    }
    return Dy.of(r, (x.e - s) / 3);
  }

  // ---------------------------------------------------------------- TLC values
  static final class RealObj extends UserObj {
    final Dy v;
    RealObj(Dy v) { this.v = v; }
    public int compareTo(Value o) { return v.compareTo(dy(o)); }
    public boolean member(Value x) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(v.toString()); }
  }
  static final class Ball extends UserObj {
    final Dy v; final double e;    // e = +inf: unconstrained ("top")
    Ball(Dy v, double e) { this.v = v; this.e = e; }
    boolean top() { return !(e < Double.POSITIVE_INFINITY); }
    public int compareTo(Value o) { Ball b = ball(o); int c = v.compareTo(b.v); return c != 0 ? c : Double.compare(e, b.e); }
    public boolean member(Value x) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      return top() ? sb.append("ANY") : sb.append(v.toString()).append("+-").append(String.format("%.3g", e));
    }
  }
  static final Ball TOP = new Ball(Dy.ZERO, Double.POSITIVE_INFINITY);
  static final Value TOPV = new UserValue(TOP);
  static Dy dy(Value x) {
    if (x instanceof IntValue) return Dy.of(((IntValue) x).val);
    UserObj o = ((UserValue) x).userObj;
    return o instanceof RealObj ? ((RealObj) o).v : ((Ball) o).v;
  }
  static Ball ball(Value x) {
    if (x instanceof IntValue) return new Ball(Dy.of(((IntValue) x).val), 0);
    UserObj o = ((UserValue) x).userObj;
    return o instanceof RealObj ? new Ball(((RealObj) o).v, 0) : (Ball) o;
  }
  static Value real(Dy d) { return new UserValue(new RealObj(d)); }
  static int bits(Value x) { return ((IntValue) x).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value mk(Dy v, double e) {
    if (!(e < OVER) || Math.abs(v.dbl()) + e >= OVER) return TOPV;
    return new UserValue(new Ball(v, e));
  }

  // reals
  public static Value RAdd(Value a, Value b) { return real(dy(a).add(dy(b))); }
  public static Value RSub(Value a, Value b) { return real(dy(a).sub(dy(b))); }
  public static Value RMul(Value a, Value b) { return real(dy(a).mul(dy(b))); }
  public static Value RDiv(Value a, Value b) { return real(dy(a).div(dy(b))); }
  public static Value RNeg(Value a) { return real(dy(a).neg()); }
  public static Value RAbs(Value a) { return real(dy(a).abs()); }
  public static Value RSqrt(Value a) { return real(dy(a).sqrt()); }
  public static Value RFloor(Value a) { return real(Dy.of(dy(a).floor(), 0)); }
  public static Value RSgn(Value a) { return IntValue.gen(dy(a).sgn()); }
  public static Value RLt(Value a, Value b) { return bool(dy(a).compareTo(dy(b)) < 0); }
  public static Value RLe(Value a, Value b) { return bool(dy(a).compareTo(dy(b)) <= 0); }
  public static Value REq(Value a, Value b) { return bool(dy(a).compareTo(dy(b)) == 0); }
  public static Value RPow2(Value k) { return real(Dy.ONE.shl(((IntValue) k).val)); }
  public static Value RIsEven(Value a) { return bool(!dy(a).floor().testBit(0)); }
  public static Value RPi() { return real(PI); }
  public static Value RExp(Value a) { return real(exp(dy(a))); }
  public static Value RLog(Value a) { return real(log(dy(a))); }
  public static Value RSin(Value a) { return real(sincos(dy(a))[0]); }
  public static Value RCos(Value a) { return real(sincos(dy(a))[1]); }
  public static Value RAtan(Value a) { return real(atan(dy(a))); }
  public static Value RCbrt(Value a) { return real(cbrt(dy(a))); }
  // binary32
  public static Value R32(Value b) { return real(ofBits(bits(b))); }
  public static Value Round32(Value a) { return IntValue.gen(toBits(dy(a))); }
  public static Value FitsInt32(Value a) { Dy d = dy(a); return bool(d.e >= 0 && d.top() <= 31 || d.sgn() == 0 || d.compareTo(Dy.of(Integer.MIN_VALUE)) == 0); }
  public static Value RToInt(Value a) { return IntValue.gen(dy(a).floor().intValueExact()); }

  // balls
  public static Value BTop() { return TOPV; }
  public static Value B32(Value b) { int x = bits(b); return finite(x) ? new UserValue(new Ball(ofBits(x), 0)) : TOPV; }
  public static Value BReal(Value a) { return new UserValue(ball(a)); }
  public static Value BMid(Value a) { return real(ball(a).v); }
  public static Value BIsTop(Value a) { return bool(ball(a).top()); }
  static double mag(Ball a) { return Math.abs(a.v.dbl()) + a.e; }
  public static Value BAdd(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    return mk(a.v.add(b.v), a.e + b.e + U * (mag(a) + mag(b)));
  }
  public static Value BSub(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    return mk(a.v.sub(b.v), a.e + b.e + U * (mag(a) + mag(b)));
  }
  public static Value BMul(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    Dy v = a.v.mul(b.v);
    double am = Math.abs(a.v.dbl()), bm = Math.abs(b.v.dbl());
    double p = am * bm;
    boolean triv = p == 0 && a.e == 0 && b.e == 0;
    return mk(v, am * b.e + bm * a.e + a.e * b.e + U * p + (triv ? 0 : ETA));
  }
  public static Value BDiv(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    double bm = Math.abs(b.v.dbl());
    if (!(bm > K * b.e) || bm == 0) return TOPV;
    Dy v = a.v.div(b.v);
    double q = Math.abs(v.dbl());
    return mk(v, (a.e + q * b.e) / (bm - b.e) + 2 * U * q + ETA);
  }
  public static Value BNeg(Value x) { Ball a = ball(x); return a.top() ? TOPV : new UserValue(new Ball(a.v.neg(), a.e)); }
  public static Value BAbs(Value x) { Ball a = ball(x); return a.top() ? TOPV : new UserValue(new Ball(a.v.abs(), a.e)); }
  public static Value BSqrt(Value x) {
    Ball a = ball(x); if (a.top()) return TOPV;
    double am = a.v.dbl();
    if (am < -K * a.e) return TOPV;
    if (am <= 2 * K * a.e) { if (a.e == 0 && am == 0) return new UserValue(new Ball(Dy.ZERO, 0)); return a.e == 0 ? mk(a.v.sqrt(), U * Math.sqrt(am)) : TOPV; }
    Dy v = a.v.sqrt();
    double s = Math.sqrt(am);
    return mk(v, a.e / Math.sqrt(am - a.e) + U * s);
  }
  // the square root of a sum of squares: stays meaningful at zero
  public static Value BRoot(Value x) {
    Ball a = ball(x); if (a.top()) return TOPV;
    double am = a.v.dbl();
    if (am > 2 * K * a.e) return BSqrt(x);
    if (a.v.sgn() < 0 && am < -K * a.e) return TOPV;
    Dy v = a.v.sgn() <= 0 ? Dy.ZERO : a.v.sqrt();
    return mk(v, Math.sqrt(Math.max(am, 0) + K * a.e) );
  }
  public static Value BMin(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    return mk(a.v.compareTo(b.v) <= 0 ? a.v : b.v, Math.max(a.e, b.e));
  }
  public static Value BMax(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    return mk(a.v.compareTo(b.v) >= 0 ? a.v : b.v, Math.max(a.e, b.e));
  }
  // widen by an absolute amount (a real)
  public static Value BWiden(Value x, Value r) { Ball a = ball(x); return a.top() ? TOPV : mk(a.v, a.e + dy(r).abs().dbl()); }
  // 1 / -1: certainly positive / negative; 0: either side of zero is possible; 2: unconstrained
  public static Value BSign(Value x) {
    Ball a = ball(x); if (a.top()) return IntValue.gen(2);
    if (a.e == 0) return IntValue.gen(a.v.sgn() == 0 ? 0 : a.v.sgn());
    double m = a.v.dbl();
    return IntValue.gen(m > K * a.e ? 1 : m < -K * a.e ? -1 : 0);
  }
  public static Value BIsExact(Value x) { Ball a = ball(x); return bool(a.e == 0); }

  interface F1 { Dy f(Dy x); }
  // monotone on [lo, hi]; ulps: error of the implementation in units of U relative to the result
  static Value mono(Value x, Dy lo, Dy hi, double ulps, F1 f) {
    Ball a = ball(x); if (a.top()) return TOPV;
    double am = a.v.dbl();
    Dy ev = Dy.of(a.e * K);
    if (lo != null && a.v.add(ev).compareTo(lo) < 0) return TOPV;
    if (hi != null && a.v.sub(ev).compareTo(hi) > 0) return TOPV;
    boolean risky = (lo != null && a.e > 0 && a.v.sub(ev).compareTo(lo) < 0) || (hi != null && a.e > 0 && a.v.add(ev).compareTo(hi) > 0);
    if (risky) return TOPV;                       // may legitimately be NaN
    if (lo != null && a.v.compareTo(lo) < 0) return TOPV;
    if (hi != null && a.v.compareTo(hi) > 0) return TOPV;
    Dy v = f.f(a.v);
    double e = 0;
    if (a.e > 0) {
      Dy d1 = f.f(a.v.add(Dy.of(a.e))).sub(v).abs(), d2 = v.sub(f.f(a.v.sub(Dy.of(a.e)))).abs();
      e = Math.max(d1.dbl(), d2.dbl());
    }
    return mk(v, e + ulps * U * Math.abs(v.dbl()) + ETA);
  }
  static boolean big(Value x, double lim) { Ball a = ball(x); return a.top() || mag(a) > lim; }
  public static Value BSin(Value x) {
    if (big(x, 1e6)) return TOPV; Ball a = ball(x);
    Dy v = sincos(a.v)[0]; return mk(v, a.e + U * Math.abs(v.dbl()) + ETA);
  }
  public static Value BCos(Value x) {
    if (big(x, 1e6)) return TOPV; Ball a = ball(x);
    Dy v = sincos(a.v)[1]; return mk(v, a.e + U * Math.abs(v.dbl()) + ETA);
  }
  public static Value BTan(Value x) {
    if (big(x, 1e6)) return TOPV; Ball a = ball(x);
    Dy[] sc = sincos(a.v); double c = sc[1].dbl();
    if (Math.abs(c) <= 4 * K * a.e || c == 0) return TOPV;
    Dy v = sc[0].div(sc[1]); double t = v.dbl();
    double cc = Math.abs(c) - a.e;
    return mk(v, a.e / (cc * cc) + U * Math.abs(t) + ETA);
  }
  static final Dy M1 = Dy.of(-1), P1 = Dy.ONE;
  public static Value BAsin(Value x) { return mono(x, M1, P1, 1, RealArith::asin); }
  public static Value BAcos(Value x) { return mono(x, M1, P1, 1, RealArith::acos); }
  public static Value BAtan(Value x) { return mono(x, null, null, 1, RealArith::atan); }
  public static Value BExp(Value x) { return big(x, 87) ? TOPV : mono(x, null, null, 1, RealArith::exp); }
  static Value logs(Value x, F1 f) {
    Ball a = ball(x); if (a.top()) return TOPV;
    double am = a.v.dbl();
    if (!(am > 2 * K * a.e) || a.v.sgn() <= 0) return TOPV;
    return mono(x, null, null, 1, f);
  }
  public static Value BLog(Value x) { return logs(x, RealArith::log); }
  public static Value BPow(Value x, Value y) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return TOPV;
    double am = a.v.dbl();
    if (b.e == 0 && b.v.sgn() == 0) return mk(Dy.ONE, 0);
    if (a.v.sgn() <= 0) {
      if (a.v.sgn() == 0 && a.e == 0 && b.v.dbl() > K * b.e) return mk(Dy.ZERO, 0);
      if (a.v.sgn() < 0 && a.e == 0 && b.e == 0 && b.v.e >= 0 && Math.abs(b.v.dbl()) <= 64) {   // negative base, integer exponent
        int n = b.v.floor().intValueExact();
        Dy p = Dy.ONE; for (int i = 0; i < Math.abs(n); i++) p = p.mul(a.v);
        if (n < 0) p = Dy.ONE.div(p);
        return small(p) ? TOPV : mk(p, U * Math.abs(p.dbl()));
      }
      return TOPV;
    }
    if (!(am > 2 * K * a.e)) return TOPV;
    Dy l = log(a.v);
    Dy t = l.mul(b.v);
    double td = t.dbl();
    if (Math.abs(td) > 86) return TOPV;
    Dy v = exp(t); double vd = v.dbl();
    double de = Math.abs(b.v.dbl()) * a.e / (am - a.e) + Math.abs(l.dbl()) * b.e + a.e / am * b.e;
    if (de > 0.5) return TOPV;
    return mk(v, vd * de * 2 + U * vd);
  }
  static boolean small(Dy p) { double d = Math.abs(p.dbl()); return d < 1e-37 || d > 1e37; }
  public static Value BAtan2(Value y, Value x) {
    Ball b = ball(y), a = ball(x); if (a.top() || b.top()) return TOPV;
    double h = Math.hypot(a.v.dbl(), b.v.dbl());
    double er = a.e + b.e;
    if (!(h > 4 * K * er) || h == 0) return TOPV;
    // near the branch cut (negative x axis) the sign is undetermined
    if (a.v.sgn() < 0 && Math.abs(b.v.dbl()) <= 2 * K * b.e) return TOPV;
    Dy v = atan2(b.v, a.v);
    return mk(v, er / (h - er) + U * Math.abs(v.dbl()) + ETA);
  }
  // acceptance: the float with this bit pattern is an admissible single-precision evaluation of the ball
  public static Value BClose(Value b, Value x) {
    Ball a = ball(x); if (a.top()) return bool(true);
    int i = bits(b);
    if (!finite(i)) return bool(false);
    double d = ofBits(i).sub(a.v).abs().dbl();
    return bool(d <= K * a.e + (a.e == 0 ? 0 : ETA) || (a.e == 0 && toBits(a.v) == i) || (a.v.sgn() == 0 && d == 0));
  }
  // acceptance within an absolute tolerance (a real)
  public static Value BWithin(Value x, Value y, Value tol) {
    Ball a = ball(x), b = ball(y); if (a.top() || b.top()) return bool(true);
    return bool(a.v.sub(b.v).abs().dbl() <= dy(tol).dbl() + K * (a.e + b.e));
  }
  // the float an exact evaluation followed by one rounding produces
  public static Value BRound(Value x) { return IntValue.gen(toBits(ball(x).v)); }
}
