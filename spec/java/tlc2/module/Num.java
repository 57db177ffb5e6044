package tlc2.module;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/** Java module overrides for Num.tla: see there for the meaning. */
public class Num {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
  static final NumValue ZERO = new NumValue(BigDecimal.ZERO);
  static final NumValue ONE = new NumValue(BigDecimal.ONE);
  static final NumValue NAN = new NumValue(Double.NaN);
  static final NumValue INF = new NumValue(Double.POSITIVE_INFINITY);
  static final NumValue NINF = new NumValue(Double.NEGATIVE_INFINITY);

  static NumValue n(Value v) {
    if (v instanceof NumValue) return (NumValue) v;
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    if (v instanceof IntValue) return new NumValue(BigDecimal.valueOf(((IntValue) v).val));
    throw new RuntimeException("not a number: " + v);
  }
  static NumValue parse(String s) {
    switch (s) {
      case "nan": return NAN;
      case "inf": return INF;
      case "-inf": return NINF;
      case "0": case "-0": return ZERO;
      case "1": return ONE;
    }
    int slash = s.indexOf('/');
    if (slash > 0) return new NumValue(new BigDecimal(s.substring(0, slash)).divide(new BigDecimal(s.substring(slash + 1)), MC));
    try { return new NumValue(new BigDecimal(s)); }
    catch (NumberFormatException e) { throw new RuntimeException("not a number: \"" + s + "\""); }
  }
  static boolean fin(NumValue a) { return a.d != null; }
  static NumValue of(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? INF : NINF;
    return x == 0 ? ZERO : new NumValue(new BigDecimal(x));
  }
  /** double stand-in with the right sign / specialness (for IEEE special rules) */
  static double sp(NumValue a) { return a.d == null ? a.special : a.d.signum(); }
  static double dbl(NumValue a) { return a.d == null ? a.special : a.d.doubleValue(); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value NAdd(Value x, Value y) { return add(n(x), n(y)); }
  static NumValue add(NumValue a, NumValue b) {
    if (fin(a) && fin(b)) return new NumValue(a.d.add(b.d, MC));
    return of(sp(a) + sp(b));
  }
  public static Value NSub(Value x, Value y) {
    NumValue a = n(x), b = n(y);
    if (fin(a) && fin(b)) return new NumValue(a.d.subtract(b.d, MC));
    return of(sp(a) - sp(b));
  }
  public static Value NMul(Value x, Value y) { return mul(n(x), n(y)); }
  static NumValue mul(NumValue a, NumValue b) {
    if (fin(a) && fin(b)) return new NumValue(a.d.multiply(b.d, MC));
    return of(sp(a) * sp(b));
  }
  public static Value NDiv(Value x, Value y) { return div(n(x), n(y)); }
  static NumValue div(NumValue a, NumValue b) {
    if (fin(a) && fin(b) && b.d.signum() != 0) return new NumValue(a.d.divide(b.d, MC));
    return of(sp(a) / sp(b));
  }
  static int cmp(NumValue a, NumValue b) {   // no nans
    if (fin(a) && fin(b)) return a.d.compareTo(b.d);
    double p = fin(a) ? 0 : a.special, q = fin(b) ? 0 : b.special;
    return Double.compare(p, q);
  }
  static boolean nan(NumValue a) { return a.d == null && Double.isNaN(a.special); }
  public static Value NMax(Value x, Value y) {
    NumValue a = n(x), b = n(y);
    if (nan(a) || nan(b)) return NAN;
    return cmp(a, b) >= 0 ? a : b;
  }
  public static Value NMin(Value x, Value y) {
    NumValue a = n(x), b = n(y);
    if (nan(a) || nan(b)) return NAN;
    return cmp(a, b) <= 0 ? a : b;
  }
  static NumValue ipow(NumValue a, BigInteger e) {
    if (e.signum() < 0) return div(ONE, ipow(a, e.negate()));
    NumValue r = ONE, sq = a;
    while (e.signum() > 0) {
      if (e.testBit(0)) r = mul(r, sq);
      e = e.shiftRight(1);
      if (e.signum() > 0) sq = flush(mul(sq, sq));
    }
    return flush(r);
  }
  static NumValue flush(NumValue a) {          // keep exponents in a sane range
    if (!fin(a) || a.d.signum() == 0) return a;
    long e = (long) a.d.precision() - a.d.scale();
    if (e < -1000000) return ZERO;
    if (e > 1000000) return a.d.signum() > 0 ? INF : NINF;
    return a;
  }
  public static Value NPow(Value x, Value y) {
    NumValue a = n(x), e = n(y);
    if (fin(a) && fin(e)) {
      BigDecimal s = e.d.signum() == 0 ? BigDecimal.ZERO : e.d.stripTrailingZeros();
      if (s.scale() <= 0 && s.abs().compareTo(new BigDecimal("1e12")) < 0)
        return ipow(a, s.toBigIntegerExact());
      if (s.multiply(BigDecimal.valueOf(2)).stripTrailingZeros().scale() <= 0 && a.d.signum() >= 0)
        return ipow(sqrt(a), s.multiply(BigDecimal.valueOf(2)).toBigIntegerExact());
    }
    return of(StrictMath.pow(dbl(a), dbl(e)));
  }
  public static Value NNeg(Value x) {
    NumValue a = n(x);
    return fin(a) ? new NumValue(a.d.negate()) : of(-a.special);
  }
  public static Value NAbs(Value x) { return abs(n(x)); }
  static NumValue abs(NumValue a) { return fin(a) ? new NumValue(a.d.abs()) : of(Math.abs(a.special)); }
  public static Value NSqrt(Value x) { return sqrt(n(x)); }
  static NumValue sqrt(NumValue a) {
    if (!fin(a)) return of(Math.sqrt(a.special));
    if (a.d.signum() < 0) return NAN;
    if (a.d.signum() == 0) return ZERO;
    return new NumValue(a.d.sqrt(MC));
  }
  public static Value NExp(Value x) { return of(StrictMath.exp(dbl(n(x)))); }
  public static Value NLog(Value x) { return of(StrictMath.log(dbl(n(x)))); }
  public static Value NLog1p(Value x) { return of(StrictMath.log1p(dbl(n(x)))); }
  public static Value NCos(Value x) { return of(StrictMath.cos(dbl(n(x)))); }
  public static Value NCosPi(Value x) {
    NumValue a = n(x);
    if (!fin(a)) return NAN;
    BigDecimal r = a.d.abs().remainder(BigDecimal.valueOf(2));
    BigDecimal h = new BigDecimal("0.5"), q = new BigDecimal("1.5");
    if (r.compareTo(h) == 0 || r.compareTo(q) == 0) return ZERO;
    return of(StrictMath.cos(Math.PI * r.doubleValue()));
  }
  public static Value NFloor(Value x) {
    NumValue a = n(x);
    return fin(a) ? new NumValue(a.d.setScale(0, RoundingMode.FLOOR)) : a;
  }
  public static Value NTrunc(Value x) {
    NumValue a = n(x);
    return fin(a) ? new NumValue(a.d.setScale(0, RoundingMode.DOWN)) : a;
  }
  public static Value NSign(Value x) {
    NumValue a = n(x);
    return nan(a) ? NAN : of(Math.signum(sp(a)));
  }
  public static Value NOfInt(Value x) { return n(x); }
  public static Value NToInt(Value x) { return IntValue.gen(n(x).d.intValueExact()); }
  public static Value NLt(Value x, Value y) { NumValue a = n(x), c = n(y); return b(!nan(a) && !nan(c) && cmp(a, c) < 0); }
  public static Value NLe(Value x, Value y) { NumValue a = n(x), c = n(y); return b(!nan(a) && !nan(c) && cmp(a, c) <= 0); }
  public static Value NEq(Value x, Value y) { NumValue a = n(x), c = n(y); return b(!nan(a) && !nan(c) && cmp(a, c) == 0); }
  public static Value NIsNan(Value x) { return b(nan(n(x))); }
  public static Value NIsFinite(Value x) { return b(fin(n(x))); }
  public static Value NClose(Value x, Value y, Value rt, Value at) {
    NumValue a = n(x), c = n(y);
    if (!fin(a) || !fin(c)) {
      if (fin(a) != fin(c)) return b(false);
      return b(nan(a) ? nan(c) : a.special == c.special);
    }
    int k = a.d.compareTo(c.d);
    if (k == 0) return b(true);
    BigDecimal m = a.d.abs().max(c.d.abs());
    BigDecimal tol = m.multiply(n(rt).d, MC).add(n(at).d, MC);
    return b(a.d.subtract(c.d, MC).abs().compareTo(tol) <= 0);
  }
  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  public static Value NSum(Value v) {
    NumValue r = ZERO;
    for (Value e : elems(v)) r = add(r, n(e));
    return r;
  }
  public static Value NSumSq(Value v) {
    NumValue r = ZERO;
    for (Value e : elems(v)) { NumValue a = n(e); r = add(r, mul(a, a)); }
    return r;
  }
  public static Value NDot(Value s, Value t) {
    Value[] p = elems(s), q = elems(t);
    if (p.length != q.length) throw new RuntimeException("NDot: lengths differ");
    NumValue r = ZERO;
    for (int i = 0; i < p.length; i++) r = add(r, mul(n(p[i]), n(q[i])));
    return r;
  }
  public static Value NMaxAbs(Value v) {
    NumValue r = ZERO;
    for (Value e : elems(v)) { NumValue a = abs(n(e)); if (fin(a) && cmp(a, r) > 0) r = a; }
    return r;
  }
  public static Value NStr(Value x) { return new StringValue(n(x).str()); }

  public static Value NCast(Value x, Value dt) {
    NumValue a = n(x);
    if (!fin(a)) return a;
    String t = ((StringValue) dt).val.toString();
    int p, emin, emax;
    switch (t) {
      case "float64": p = 53; emin = -1022; emax = 1023; break;
      case "float32": p = 24; emin = -126; emax = 127; break;
      case "bfloat16": p = 8; emin = -126; emax = 127; break;
      case "float16": p = 11; emin = -14; emax = 15; break;
      default: return a;
    }
    return round(a, p, emin, emax);
  }
  static final BigDecimal TWO = BigDecimal.valueOf(2);
  static NumValue round(NumValue a, int p, int emin, int emax) {
    if (a.d.signum() == 0) return ZERO;
    BigDecimal m = a.d.abs();
    long digits = (long) m.precision() - m.scale();
    if (digits > 400) return a.d.signum() > 0 ? INF : NINF;
    if (digits < -400) return ZERO;
    // exponent e with 2^e <= m < 2^(e+1)
    int e = (int) Math.floor((digits - 1) * 3.3219280948873623) - 1;
    while (pow2(e + 1).compareTo(m) <= 0) e++;
    int q = Math.max(e, emin) - (p - 1);       // quantum 2^q
    BigDecimal k = m.divide(pow2(q), new MathContext(1200)).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = k.multiply(pow2(q));
    if (r.compareTo(pow2(emax + 1)) >= 0) return a.d.signum() > 0 ? INF : NINF;
    return new NumValue(a.d.signum() > 0 ? r : r.negate());
  }
  static BigDecimal pow2(int e) {
    return e >= 0 ? new BigDecimal(BigInteger.ONE.shiftLeft(e))
                  : BigDecimal.ONE.divide(new BigDecimal(BigInteger.ONE.shiftLeft(-e)));
  }

  public static Value Force(Value v) {
    Value t = v.toTuple();
    return t == null ? v : t;
  }
}
