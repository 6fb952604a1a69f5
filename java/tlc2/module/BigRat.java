package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** Fast evaluation of the operators of BigRat.tla marked (J). */
public class BigRat {
  public static final long serialVersionUID = 20240101L;

  static final BigInteger BASE = BigInteger.valueOf(10000);
  static final BigInteger TEN = BigInteger.TEN;

  static final class Rat {
    final BigInteger n, d;   // d > 0, gcd = 1
    Rat(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }

  /** A tuple value that remembers the rational it encodes. */
  public static final class RatValue extends TupleValue {
    final transient Rat q;
    RatValue(Value[] v, Rat q) { super(v); this.q = q; }
  }

  private static TupleValue limbs(BigInteger x) {
    if (x.signum() == 0) return new TupleValue(new Value[0]);
    if (x.bitLength() < 63) {
      long v = x.longValue();
      int k = 0; for (long t = v; t > 0; t /= 10000) k++;
      Value[] r = new Value[k];
      for (int i = 0; i < k; i++) { r[i] = IntValue.gen((int) (v % 10000)); v /= 10000; }
      return new TupleValue(r);
    }
    String s = x.toString();
    int k = (s.length() + 3) / 4;
    Value[] r = new Value[k];
    int e = s.length();
    for (int i = 0; i < k; i++) {
      int b = Math.max(0, e - 4);
      int v = 0;
      for (int j = b; j < e; j++) v = v * 10 + (s.charAt(j) - '0');
      r[i] = IntValue.gen(v);
      e = b;
    }
    return new TupleValue(r);
  }

  static Value wrap(Rat q) {
    return new RatValue(new Value[] { IntValue.gen(q.n.signum()), limbs(q.n.abs()), limbs(q.d) }, q);
  }

  static int intOf(Value v) { return ((IntValue) v).val; }

  static BigInteger nat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("BigRat: not a limb sequence: " + v);
    BigInteger r = BigInteger.ZERO;
    if (t.elems.length <= 4) {
      long x = 0;
      for (int i = t.elems.length - 1; i >= 0; i--) x = x * 10000 + intOf(t.elems[i]);
      return BigInteger.valueOf(x);
    }
    char[] c = new char[4 * t.elems.length];
    int p = 0;
    for (int i = t.elems.length - 1; i >= 0; i--) {
      int x = intOf(t.elems[i]);
      c[p] = (char) ('0' + x / 1000); c[p+1] = (char) ('0' + x / 100 % 10);
      c[p+2] = (char) ('0' + x / 10 % 10); c[p+3] = (char) ('0' + x % 10);
      p += 4;
    }
    return new BigInteger(new String(c));
  }

  static Rat rat(Value v) {
    if (v instanceof RatValue && ((RatValue) v).q != null) return ((RatValue) v).q;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 3) throw new RuntimeException("BigRat: not a rational: " + v);
    int s = intOf(t.elems[0]);
    if (s == 0) return ZERO;
    BigInteger n = nat(t.elems[1]), d = nat(t.elems[2]);
    if (d.signum() == 0) throw new RuntimeException("BigRat: zero denominator");
    return new Rat(s < 0 ? n.negate() : n, d);
  }

  static final Rat ZERO = new Rat(BigInteger.ZERO, BigInteger.ONE);
  static final Rat ONE = new Rat(BigInteger.ONE, BigInteger.ONE);

  static Rat make(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("BigRat: division by zero");
    if (n.signum() == 0) return ZERO;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(BigInteger.ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new Rat(n, d);
  }

  static Rat add(Rat a, Rat b) {
    if (a.n.signum() == 0) return b;
    if (b.n.signum() == 0) return a;
    if (a.d.equals(b.d)) return make(a.n.add(b.n), a.d);
    return make(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Rat neg(Rat a) { return new Rat(a.n.negate(), a.d); }
  static Rat mul(Rat a, Rat b) {
    if (a.n.signum() == 0 || b.n.signum() == 0) return ZERO;
    return make(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static Rat inv(Rat a) {
    if (a.n.signum() == 0) throw new RuntimeException("BigRat: division by zero");
    return a.n.signum() > 0 ? new Rat(a.d, a.n) : new Rat(a.d.negate(), a.n.negate());
  }

  static final BigInteger[] P10 = new BigInteger[400];
  static { P10[0] = BigInteger.ONE; for (int i = 1; i < 400; i++) P10[i] = P10[i-1].multiply(TEN); }
  static BigInteger p10(int k) { return k < 400 ? P10[k] : TEN.pow(k); }

  static int digits(BigInteger x) {     // decimal digits of x >= 0; 0 for 0
    if (x.signum() == 0) return 0;
    int e = (int) ((x.bitLength() - 1) * 0.30102999566398120);   // floor estimate
    if (p10(e).compareTo(x) > 0) return e;       // 10^e > x
    return p10(e + 1).compareTo(x) > 0 ? e + 1 : e + 2;
  }

  static Rat fix(Rat a, int k) {
    if (a.n.signum() == 0) return ZERO;
    if (k >= 0) return make(a.n.multiply(p10(k)).divide(a.d), p10(k));
    return make(a.n.divide(a.d.multiply(p10(-k))).multiply(p10(-k)), BigInteger.ONE);
  }
  static Rat round(Rat a, int p) {
    if (p == 0 || a.n.signum() == 0) return a;
    int x = digits(a.n.abs()), y = digits(a.d);
    if (x + y <= p) return a;
    return fix(a, p - (x - y));
  }

  public static Value QMake(Value s, Value n, Value d) {
    int sg = intOf(s);
    BigInteger nn = nat(n);
    if (sg == 0) return wrap(ZERO);
    return wrap(make(sg < 0 ? nn.negate() : nn, nat(d)));
  }
  public static Value Q(Value n, Value d) {
    return wrap(make(BigInteger.valueOf(intOf(n)), BigInteger.valueOf(intOf(d))));
  }
  public static Value QI(Value n) { return wrap(new Rat(BigInteger.valueOf(intOf(n)), BigInteger.ONE)); }
  public static Value QNeg(Value a) { return wrap(neg(rat(a))); }
  public static Value QAbs(Value a) { Rat x = rat(a); return wrap(new Rat(x.n.abs(), x.d)); }
  public static Value QAdd(Value a, Value b) { return wrap(add(rat(a), rat(b))); }
  public static Value QSub(Value a, Value b) { return wrap(add(rat(a), neg(rat(b)))); }
  public static Value QMul(Value a, Value b) { return wrap(mul(rat(a), rat(b))); }
  public static Value QInv(Value a) { return wrap(inv(rat(a))); }
  public static Value QDiv(Value a, Value b) { return wrap(mul(rat(a), inv(rat(b)))); }
  public static Value QCmp(Value a, Value b) {
    Rat x = rat(a), y = rat(b);
    return IntValue.gen(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)));
  }
  public static Value QFix(Value a, Value k) { return wrap(fix(rat(a), intOf(k))); }
  public static Value QRound(Value a, Value p) { return wrap(round(rat(a), intOf(p))); }
  public static Value QPowN(Value a, Value n) {
    Rat x = rat(a); int k = intOf(n);
    if (k == 0) return wrap(ONE);
    if (k < 0) { x = inv(x); k = -k; }
    return wrap(new Rat(x.n.pow(k), x.d.pow(k)));
  }
  static BigInteger floor(Rat a) {
    BigInteger[] qr = a.n.divideAndRemainder(a.d);
    return (a.n.signum() < 0 && qr[1].signum() != 0) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  public static Value QFloor(Value a) { return wrap(new Rat(floor(rat(a)), BigInteger.ONE)); }
  public static Value QToInt(Value a) { return IntValue.gen(floor(rat(a)).intValueExact()); }
  public static Value QAddP(Value a, Value b, Value p) { return wrap(round(add(rat(a), rat(b)), intOf(p))); }
  public static Value QSubP(Value a, Value b, Value p) { return wrap(round(add(rat(a), neg(rat(b))), intOf(p))); }
  public static Value QMulP(Value a, Value b, Value p) { return wrap(round(mul(rat(a), rat(b)), intOf(p))); }
  public static Value QDivP(Value a, Value b, Value p) { return wrap(round(mul(rat(a), inv(rat(b))), intOf(p))); }
  public static Value QDotP(Value a, Value b, Value p) {
    TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
    int pr = intOf(p);
    Rat acc = ZERO;
    for (int i = 0; i < x.elems.length; i++)
      acc = round(add(acc, round(mul(rat(x.elems[i]), rat(y.elems[i])), pr)), pr);
    return wrap(acc);
  }

  static TupleValue tup(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("BigRat: not a sequence: " + v);
    return t;
  }
  static Rat[] rats(TupleValue t) {
    Rat[] r = new Rat[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = rat(t.elems[i]);
    return r;
  }
  public static Value QBil(Value tab, Value m, Value a, Value b, Value p) {
    TupleValue t = tup(tab);
    Rat[] x = rats(tup(a)), y = rats(tup(b));
    int n = intOf(m), pr = intOf(p);
    Value[] out = new Value[n];
    for (int k = 0; k < n; k++) {
      TupleValue row = tup(t.elems[k]);
      Rat acc = ZERO;
      for (int i = 0; i < row.elems.length; i++) {
        TupleValue pair = (TupleValue) row.elems[i].toTuple();
        acc = round(add(acc, round(mul(x[intOf(pair.elems[0]) - 1], y[intOf(pair.elems[1]) - 1]), pr)), pr);
      }
      out[k] = wrap(acc);
    }
    return new TupleValue(out);
  }
  public static Value QLin(Value x, Value a, Value y, Value b, Value m, Value p) {
    TupleValue ta = tup(a), tb = tup(b);
    Rat u = rat(x), v = rat(y);
    int n = intOf(m), pr = intOf(p);
    Value[] out = new Value[n];
    for (int k = 0; k < n; k++)
      out[k] = wrap(round(add(round(mul(u, rat(ta.elems[k])), pr), round(mul(v, rat(tb.elems[k])), pr)), pr));
    return new TupleValue(out);
  }
  public static Value QMaxAbs(Value a) {
    Rat m = ZERO;
    for (Rat x : rats(tup(a))) {
      Rat y = new Rat(x.n.abs(), x.d);
      if (y.n.multiply(m.d).compareTo(m.n.multiply(y.d)) > 0) m = y;
    }
    return wrap(m);
  }
}
