package cpsz;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerated evaluation of the operators of ExactReal.tla; ExactRealTest.tla compares it with the definitions. */
public class ExactReal {
  /** A number tuple that remembers its double. */
  static final class Num extends TupleValue {
    final double d;
    Num(double d) {
      super(parts(d));
      this.d = d;
    }
  }

  static Value[] parts(double d) {
    if (Double.isNaN(d) || Double.isInfinite(d))
      return new Value[] { IntValue.gen(9), IntValue.gen(Double.isNaN(d) ? 0 : d > 0 ? 1 : 2), IntValue.gen(0), IntValue.gen(0) };
    if (d == 0) return new Value[] { IntValue.gen(0), IntValue.gen(0), IntValue.gen(0), IntValue.gen(0) };
    long b = Double.doubleToRawLongBits(d);
    int e = (int) ((b >>> 52) & 0x7ff);
    long m = b & 0xfffffffffffffL;
    if (e == 0) e = 1; else m |= 1L << 52;
    return new Value[] { IntValue.gen(b < 0 ? -1 : 1), IntValue.gen((int) (m >>> 27)), IntValue.gen((int) (m & ((1 << 27) - 1))),
        IntValue.gen(e - 1075) };
  }

  static int in(Value v) { return ((IntValue) v).val; }

  static Value[] elems(Value v) { return v instanceof TupleValue ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems; }

  static double dbl(Value v) {
    if (v instanceof Num) return ((Num) v).d;
    Value[] t = elems(v);
    int s = in(t[0]);
    if (s == 9) return Double.NaN;
    return s * Math.scalb((double) (((long) in(t[1]) << 27) + in(t[2])), in(t[3]));
  }

  /** sign of sum c[i] * prod f[i][*] */
  static int polySign(double[] c, double[][] f) {
    double sum = 0, mag = 0;
    boolean ok = true;
    for (int i = 0; i < c.length; i++) {
      double p = c[i];
      boolean zero = p == 0;
      for (double x : f[i]) { p *= x; zero |= x == 0; }
      if (zero) continue;
      double a = Math.abs(p);
      if (!(a > 1e-280 && a < 1e300)) ok = false;
      sum += p;
      mag += a;
    }
    if (ok) {
      if (mag == 0) return 0;
      if (Math.abs(sum) > mag * 0x1p-52 * (64 + c.length)) return sum > 0 ? 1 : -1;
    }
    return exactSign(c, f);
  }

  static int exactSign(double[] c, double[][] f) {
    BigInteger[] m = new BigInteger[c.length];
    int[] e = new int[c.length];
    int base = Integer.MAX_VALUE;
    for (int i = 0; i < c.length; i++) {
      m[i] = BigInteger.valueOf((long) c[i]);
      for (double x : f[i]) {
        if (Double.isNaN(x) || Double.isInfinite(x)) throw new RuntimeException("PolySign of a number that is not finite");
        if (x == 0) { m[i] = BigInteger.ZERO; break; }
        int ex = Math.getExponent(x) - 52;
        if (ex < -1074) ex = -1074;
        m[i] = m[i].multiply(BigInteger.valueOf((long) Math.scalb(x, -ex)));
        e[i] += ex;
      }
      if (m[i].signum() != 0) base = Math.min(base, e[i]);
    }
    BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < c.length; i++) if (m[i].signum() != 0) s = s.add(m[i].shiftLeft(e[i] - base));
    return s.signum();
  }

  @TLAPlusOperator(identifier = "PolySign", module = "ExactReal", warn = false)
  public static Value polySign(final Value terms) {
    Value[] ts = elems(terms);
    double[] c = new double[ts.length];
    double[][] f = new double[ts.length][];
    for (int i = 0; i < ts.length; i++) {
      Value[] t = elems(ts[i]);
      c[i] = in(t[0]);
      Value[] fs = elems(t[1]);
      f[i] = new double[fs.length];
      for (int j = 0; j < fs.length; j++) f[i][j] = dbl(fs[j]);
    }
    return IntValue.gen(polySign(c, f));
  }

  static int cross(double a, double b, double c, double d) {
    double p = a * d, q = b * c, s = p - q, m = Math.abs(p) + Math.abs(q);
    if (m > 1e-280 && m < 1e300 && Math.abs(s) > m * 0x1p-50) return s > 0 ? 1 : -1;
    return polySign(new double[] { 1, -1 }, new double[][] { { a, d }, { b, c } });
  }

  @TLAPlusOperator(identifier = "CrossSign", module = "ExactReal", warn = false)
  public static Value crossSign(final Value a, final Value b, final Value c, final Value d) {
    return IntValue.gen(cross(dbl(a), dbl(b), dbl(c), dbl(d)));
  }

  @TLAPlusOperator(identifier = "DetSign", module = "ExactReal", warn = false)
  public static Value detSign(final Value pv, final Value qv, final Value rv) {
    double[] p = vec(pv), q = vec(qv), r = vec(rv);
    return IntValue.gen(polySign(new double[] { 1, -1, 1, -1, 1, -1 }, new double[][] { { p[0], q[1], r[2] }, { p[0], q[2], r[1] },
        { p[1], q[2], r[0] }, { p[1], q[0], r[2] }, { p[2], q[0], r[1] }, { p[2], q[1], r[0] } }));
  }

  static double[] vec(Value v) {
    Value[] e = elems(v);
    return new double[] { dbl(e[0]), dbl(e[1]), dbl(e[2]) };
  }

  static boolean within(double[] c, double[][] f) { return polySign(c, f) <= 0; }

  @TLAPlusOperator(identifier = "AbsWithin", module = "ExactReal", warn = false)
  public static Value absWithin(final Value xv, final Value yv, final Value ev, final Value kv) {
    double x = dbl(xv), y = dbl(yv), e = dbl(ev), p = 1 << in(kv);
    if (Math.abs(x - y) < e) return BoolValue.ValTrue;   // below the bound by more than the slack, whatever the rounding of x - y
    double[] c = { p, -p, -p - 1 };
    return within(c, new double[][] { { x }, { y }, { e } }) && within(c, new double[][] { { y }, { x }, { e } }) ? BoolValue.ValTrue
        : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "AbsExact", module = "ExactReal", warn = false)
  public static Value absExact(final Value xv, final Value yv, final Value ev) {
    double x = dbl(xv), y = dbl(yv), e = dbl(ev), d = Math.abs(x - y);
    if (d < e * 0.999) return BoolValue.ValTrue;
    double[] c = { 1, -1, -1 };
    return within(c, new double[][] { { x }, { y }, { e } }) && within(c, new double[][] { { y }, { x }, { e } }) ? BoolValue.ValTrue
        : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RelWithin", module = "ExactReal", warn = false)
  public static Value relWithin(final Value xv, final Value yv, final Value rv, final Value qv) {
    double x = dbl(xv), y = dbl(yv), r = dbl(rv), q = in(qv), p = 1 << 20, a = Math.abs(x);
    double lim = a * (r + q / p);
    if (a > 1e-150 && a < 1e150 && r < 1e100 && Math.abs(x - y) < lim * 0.999999) return BoolValue.ValTrue;
    double[] c = { p, -p, -p - 1, -q };
    return within(c, new double[][] { { x }, { y }, { r, a }, { a } }) && within(c, new double[][] { { y }, { x }, { r, a }, { a } })
        ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static double[] four(Value v) {
    Value[] e = elems(v);
    return new double[] { dbl(e[0]), dbl(e[1]), dbl(e[2]), dbl(e[3]) };
  }

  static double[] weights(int x, int y, int n) { return new double[] { (n - x) * (n - y), x * (n - y), (n - x) * y, x * y }; }

  @TLAPlusOperator(identifier = "BiSign", module = "ExactReal", warn = false)
  public static Value biSign(final Value wv, final Value xv, final Value yv, final Value nv) {
    double[] w = four(wv);
    return IntValue.gen(polySign(weights(in(xv), in(yv), in(nv)), new double[][] { { w[0] }, { w[1] }, { w[2] }, { w[3] } }));
  }

  /** terms of u(p) v(q) - v(p) u(q), times m; room for one more term at the end */
  static void biCross(double[] u, double[] v, Value pv, Value qv, int n, double m, double[] c, double[][] f) {
    Value[] p = elems(pv), q = elems(qv);
    double[] a = weights(in(p[0]), in(p[1]), n), b = weights(in(q[0]), in(q[1]), n);
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++) {
        c[4 * i + j] = m * a[i] * b[j];
        f[4 * i + j] = new double[] { u[i], v[j] };
        c[16 + 4 * i + j] = -m * a[i] * b[j];
        f[16 + 4 * i + j] = new double[] { v[i], u[j] };
      }
  }

  @TLAPlusOperator(identifier = "BiCrossSign", module = "ExactReal", warn = false)
  public static Value biCrossSign(final Value u, final Value v, final Value p, final Value q, final Value n) {
    double[] c = new double[32];
    double[][] f = new double[32][];
    biCross(four(u), four(v), p, q, in(n), 1, c, f);
    return IntValue.gen(polySign(c, f));
  }

  @TLAPlusOperator(identifier = "BiCrossClear", module = "ExactReal", warn = false)
  public static Value biCrossClear(final Value u, final Value v, final Value p, final Value q, final Value n, final Value scale,
      final Value k) {
    double[] c = new double[32];
    double[][] f = new double[32][];
    double[] uu = four(u), vv = four(v);
    biCross(uu, vv, p, q, in(n), 1, c, f);
    int s = polySign(c, f);
    if (s == 0) return BoolValue.ValFalse;
    c = new double[33];
    f = new double[33][];
    biCross(uu, vv, p, q, in(n), (double) s * (1 << in(k)), c, f);
    Value[] sc = elems(scale);
    c[32] = -1;
    f[32] = new double[sc.length];
    for (int i = 0; i < sc.length; i++) f[32][i] = dbl(sc[i]);
    return polySign(c, f) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
