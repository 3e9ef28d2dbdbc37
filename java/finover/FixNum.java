package finover;

import java.math.BigInteger;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.util.FP64;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** BigInteger versions of the operators FixNum.tla defines; speed only. */
public class FixNum implements ITLCOverrides {
  public Class[] get() { return new Class[] {FixNum.class}; }

  static final int BASE = 10000;
  static final BigInteger SC = BigInteger.TEN.pow(24);
  static final BigInteger CH = BigInteger.valueOf(100000000L);
  static final BigInteger CH2 = BigInteger.valueOf(10000000000000000L);

  static BigInteger mag(TupleValue m) {
    int n = m.elems.length;
    BigInteger r = BigInteger.ZERO;
    int i = n;
    // highest chunk first, four limbs (10^16) at a time
    int head = n % 4;
    long acc = 0;
    for (int k = 0; k < head; k++) acc = acc * BASE + ((IntValue) m.elems[--i]).val;
    r = BigInteger.valueOf(acc);
    while (i > 0) {
      acc = 0;
      for (int k = 0; k < 4; k++) acc = acc * BASE + ((IntValue) m.elems[--i]).val;
      r = r.signum() == 0 ? BigInteger.valueOf(acc) : r.multiply(CH2).add(BigInteger.valueOf(acc));
    }
    return r;
  }

  static BigInteger dec(Value v0) {
    TupleValue v = (TupleValue) v0.toTuple();
    int s = ((IntValue) v.elems[0]).val;
    if (s == 0) return BigInteger.ZERO;
    BigInteger r = mag((TupleValue) ((Value) v.elems[1]).toTuple());
    return s < 0 ? r.negate() : r;
  }

  static Value enc(BigInteger b) {
    int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] {IntValue.gen(0), new TupleValue(new Value[0])});
    b = b.abs();
    int cap = b.bitLength() / 13 + 5;
    int[] l = new int[cap];
    int n = 0;
    while (b.bitLength() > 63) {
      BigInteger[] q = b.divideAndRemainder(CH2);
      long x = q[1].longValue();
      for (int k = 0; k < 4; k++) { l[n++] = (int) (x % BASE); x /= BASE; }
      b = q[0];
    }
    long x = b.longValue();
    while (x != 0) { l[n++] = (int) (x % BASE); x /= BASE; }
    while (n > 0 && l[n - 1] == 0) n--;
    Value[] out = new Value[n];
    for (int i = 0; i < n; i++) out[i] = IntValue.gen(l[i]);
    return new TupleValue(new Value[] {IntValue.gen(s), new TupleValue(out)});
  }

  @TLAPlusOperator(identifier = "FAdd", module = "FixNum", warn = false)
  public static Value FAdd(final Value a, final Value b) { return enc(dec(a).add(dec(b))); }

  @TLAPlusOperator(identifier = "FSub", module = "FixNum", warn = false)
  public static Value FSub(final Value a, final Value b) { return enc(dec(a).subtract(dec(b))); }

  @TLAPlusOperator(identifier = "FMul", module = "FixNum", warn = false)
  public static Value FMul(final Value a, final Value b) {
    return enc(dec(a).multiply(dec(b)).divide(SC));
  }

  @TLAPlusOperator(identifier = "FDiv", module = "FixNum", warn = false)
  public static Value FDiv(final Value a, final Value b) {
    return enc(dec(a).multiply(SC).divide(dec(b)));
  }

  @TLAPlusOperator(identifier = "FMulInt", module = "FixNum", warn = false)
  public static Value FMulInt(final Value a, final IntValue n) {
    return enc(dec(a).multiply(BigInteger.valueOf(n.val)));
  }

  @TLAPlusOperator(identifier = "FDivInt", module = "FixNum", warn = false)
  public static Value FDivInt(final Value a, final IntValue n) {
    return enc(dec(a).divide(BigInteger.valueOf(n.val)));
  }

  @TLAPlusOperator(identifier = "FSqrt", module = "FixNum", warn = false)
  public static Value FSqrt(final Value a) { return enc(dec(a).multiply(SC).sqrt()); }

  @TLAPlusOperator(identifier = "FCmp", module = "FixNum", warn = false)
  public static Value FCmp(final Value a, final Value b) {
    return IntValue.gen(dec(a).compareTo(dec(b)));
  }

  // ---- RealMath.tla: the same algorithms, step by step, with the same truncations ----

  static BigInteger mul(BigInteger a, BigInteger b) { return a.multiply(b).divide(SC); }
  static BigInteger sqr(BigInteger a) { return a.multiply(a).divide(SC); }
  static BigInteger div(BigInteger a, BigInteger b) { return a.multiply(SC).divide(b); }
  static BigInteger dvi(BigInteger a, long n) { return a.divide(BigInteger.valueOf(n)); }
  static BigInteger mli(BigInteger a, long n) { return a.multiply(BigInteger.valueOf(n)); }
  static BigInteger of(long n) { return BigInteger.valueOf(n).multiply(SC); }
  static BigInteger rat(long p, long q) { return dvi(of(p), q); }
  static int floor(BigInteger a) {
    BigInteger[] q = a.divideAndRemainder(SC);
    int r = q[0].intValueExact();
    return q[1].signum() < 0 ? r - 1 : r;
  }
  static int trunc(BigInteger a) { return a.divide(SC).intValueExact(); }
  static int round(BigInteger a) { return floor(a.add(dvi(SC, 2))); }
  static BigInteger root(BigInteger a) { return a.multiply(SC).sqrt(); }

  static BigInteger atanh(BigInteger y, int n) {
    BigInteger y2 = sqr(y), acc = BigInteger.ZERO;
    for (int j = n; j >= 1; j--) acc = dvi(SC, 2 * j - 1).add(mul(y2, acc));
    return mul(y, acc);
  }
  static BigInteger atanInv(int q, int n) {
    BigInteger acc = BigInteger.ZERO;
    for (int j = n; j >= 1; j--) acc = dvi(SC, 2 * j - 1).subtract(dvi(dvi(acc, q), q));
    return acc;
  }
  static final BigInteger LN2 = mli(atanh(rat(1, 3), 30), 2);
  static final BigInteger PI =
      mli(dvi(atanInv(5, 22), 5), 16).subtract(mli(dvi(atanInv(239, 8), 239), 4));
  static final BigInteger HALFPI = dvi(PI, 2);
  static final BigInteger SQRT2PI = root(mli(PI, 2));

  static BigInteger timesPow2(BigInteger x, int k) {
    if (k > 20) return timesPow2(mli(x, 1048576), k - 20);
    if (k > 0) return mli(x, 1L << k);
    if (k == 0) return x;
    if (k < -20) return timesPow2(dvi(x, 1048576), k + 20);
    return dvi(x, 1L << (-k));
  }
  static BigInteger exp(BigInteger x) {
    if (x.compareTo(of(-60)) < 0) return BigInteger.ZERO;
    int k = round(div(x, LN2));
    BigInteger r = dvi(x.subtract(mli(LN2, k)), 16), t = SC;
    for (int i = 13; i >= 1; i--) t = SC.add(dvi(mul(r, t), i));
    return timesPow2(sqr(sqr(sqr(sqr(t)))), k);
  }
  static BigInteger ln(BigInteger x) {
    if (x.signum() <= 0) throw new ArithmeticException("Ln of a number <= 0");
    int k = 0;
    BigInteger up = rat(142, 100), lo = rat(71, 100), kk = of(1024);
    while (true) {
      if (x.compareTo(kk) >= 0) { x = dvi(x, 1024); k += 10; }
      else if (x.compareTo(up) >= 0) { x = dvi(x, 2); k += 1; }
      else if (mli(x, 1024).compareTo(SC) < 0) { x = mli(x, 1024); k -= 10; }
      else if (x.compareTo(lo) < 0) { x = mli(x, 2); k -= 1; }
      else break;
    }
    return mli(atanh(div(x.subtract(SC), x.add(SC)), 17), 2).add(mli(LN2, k));
  }
  static BigInteger[] sinCos(BigInteger x) {
    int k = round(div(x, HALFPI));
    BigInteger r = x.subtract(mli(HALFPI, k)), r2 = sqr(r), s = SC, c = SC;
    for (int i = 11; i >= 1; i--) s = SC.subtract(dvi(mul(r2, s), 2L * i * (2 * i + 1)));
    s = mul(r, s);
    for (int i = 11; i >= 1; i--) c = SC.subtract(dvi(mul(r2, c), (2L * i - 1) * 2 * i));
    switch (Math.floorMod(k, 4)) {
      case 0: return new BigInteger[] {s, c};
      case 1: return new BigInteger[] {c, s.negate()};
      case 2: return new BigInteger[] {s.negate(), c.negate()};
      default: return new BigInteger[] {c.negate(), s};
    }
  }
  static BigInteger pdf(BigInteger x) {
    if (x.abs().compareTo(of(10)) >= 0) return BigInteger.ZERO;
    return div(exp(dvi(sqr(x), 2).negate()), SQRT2PI);
  }
  static BigInteger phi(BigInteger x) {
    if (x.abs().compareTo(rat(19, 2)) >= 0) return x.signum() > 0 ? SC : BigInteger.ZERO;
    if (x.abs().compareTo(of(4)) >= 0) {
      BigInteger f = x.abs();
      for (int k = 40; k >= 1; k--) f = x.abs().add(div(of(k), f));
      BigInteger q = div(pdf(x), f);
      return x.signum() > 0 ? SC.subtract(q) : q;
    }
    BigInteger x2 = sqr(x), t = x, s = x;
    int n = 12 + trunc(mli(x.abs(), 10)) + trunc(mul(x2, rat(6, 5)));
    for (int k = 1; k <= n; k++) { t = dvi(mul(t, x2), 2 * k + 1); s = s.add(t); }
    return rat(1, 2).add(mul(pdf(x), s));
  }

  @TLAPlusOperator(identifier = "Exp", module = "RealMath", warn = false)
  public static Value Exp(final Value x) { return enc(exp(dec(x))); }

  @TLAPlusOperator(identifier = "Ln", module = "RealMath", warn = false)
  public static Value Ln(final Value x) { return enc(ln(dec(x))); }

  @TLAPlusOperator(identifier = "Pdf", module = "RealMath", warn = false)
  public static Value Pdf(final Value x) { return enc(pdf(dec(x))); }

  @TLAPlusOperator(identifier = "Phi", module = "RealMath", warn = false)
  public static Value Phi(final Value x) { return enc(phi(dec(x))); }

  static Value pair(BigInteger a, BigInteger b) { return new TupleValue(new Value[] {enc(a), enc(b)}); }
  static BigInteger part(Value v, int i) { return dec((Value) ((TupleValue) v.toTuple()).elems[i]); }

  @TLAPlusOperator(identifier = "SinCos", module = "RealMath", warn = false)
  public static Value SinCos(final Value x) { BigInteger[] p = sinCos(dec(x)); return pair(p[0], p[1]); }

  @TLAPlusOperator(identifier = "CMul", module = "RealMath", warn = false)
  public static Value CMul(final Value a, final Value b) {
    BigInteger x = part(a, 0), y = part(a, 1), u = part(b, 0), v = part(b, 1);
    return pair(mul(x, u).subtract(mul(y, v)), mul(x, v).add(mul(y, u)));
  }

  @TLAPlusOperator(identifier = "CInv", module = "RealMath", warn = false)
  public static Value CInv(final Value a) {
    BigInteger x = part(a, 0), y = part(a, 1), n = sqr(x).add(sqr(y));
    return pair(div(x, n), div(y, n).negate());
  }

  @TLAPlusOperator(identifier = "CSqrt", module = "RealMath", warn = false)
  public static Value CSqrt(final Value a) {
    BigInteger x = part(a, 0), y = part(a, 1), r = root(sqr(x).add(sqr(y)));
    BigInteger u = root(dvi(r.add(x).max(BigInteger.ZERO), 2));
    BigInteger v = root(dvi(r.subtract(x).max(BigInteger.ZERO), 2));
    return pair(u, y.signum() < 0 ? v.negate() : v);
  }

  /** Attempt(e, d): the value of e, or of d when e cannot be evaluated. */
  @Evaluation(definition = "Attempt", module = "FixNum", warn = false, silent = true)
  public static Value attempt(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    try {
      Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
      v.fingerPrint(FP64.New());      // evaluates what is still lazy
      return v;
    } catch (RuntimeException | StackOverflowError e) {
      return (Value) tool.eval(args[1], c, s0, s1, control, cm);
    }
  }
}
