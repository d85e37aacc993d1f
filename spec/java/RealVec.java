import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

// TLC module override for RealVec.tla: IEEE double vectors as TLA+ strings.
public class RealVec {
  // ---------------------------------------------------------------- storage
  private static final HashMap<String, double[]> tab = new HashMap<>();
  private static final HashMap<Key, String> rev = new HashMap<>();
  private static int cnt = 0;

  private static final class Key {
    final double[] a; final int h;
    Key(double[] a) { this.a = a; this.h = Arrays.hashCode(a); }
    public int hashCode() { return h; }
    public boolean equals(Object o) { return Arrays.equals(a, ((Key) o).a); }
  }

  private static double num(String t) {
    switch (t) {
      case "nan": case "NaN": case "-nan": return Double.NaN;
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(t);
    }
  }

  private static double[] v(Value x) {
    if (x instanceof IntValue) return new double[] {((IntValue) x).val};
    String s = ((StringValue) x).val.toString();
    synchronized (tab) {
      double[] r = tab.get(s);
      if (r == null) {
        StringTokenizer st = new StringTokenizer(s);
        r = new double[st.countTokens()];
        for (int i = 0; i < r.length; i++) r[i] = num(st.nextToken());
        tab.put(s, r);
      }
      return r;
    }
  }

  private static String show(double d) {
    if (Double.isNaN(d)) return "nan";
    if (Double.isInfinite(d)) return d > 0 ? "inf" : "-inf";
    return Double.toString(d);
  }

  private static Value out(double[] r) {
    if (r.length <= 4) {
      StringBuilder sb = new StringBuilder();
      for (int i = 0; i < r.length; i++) { if (i > 0) sb.append(' '); sb.append(show(r[i])); }
      return new StringValue(sb.toString());
    }
    synchronized (tab) {
      Key k = new Key(r);
      String h = rev.get(k);
      if (h == null) {
        h = "~v" + (cnt++) + "[" + r.length + "]";
        rev.put(k, h); tab.put(h, r);
      }
      return new StringValue(h);
    }
  }

  private static Value out(double d) { return out(new double[] {d}); }
  private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int n(Value x) { return x instanceof IntValue ? ((IntValue) x).val : (int) v(x)[0]; }
  private interface F2 { double f(double a, double b); }
  private interface F1 { double f(double a); }
  private static Value map2(Value x, Value y, F2 f) {
    double[] a = v(x), b = v(y);
    if (a.length != b.length && a.length != 1 && b.length != 1)
      throw new RuntimeException("RealVec: length mismatch " + a.length + " vs " + b.length);
    double[] r = new double[a.length == 1 ? b.length : a.length];
    if (a.length == 0 || b.length == 0) return out(new double[0]);
    for (int i = 0; i < r.length; i++) r[i] = f.f(a[a.length == 1 ? 0 : i], b[b.length == 1 ? 0 : i]);
    return out(r);
  }
  private static Value map1(Value x, F1 f) {
    double[] a = v(x), r = new double[a.length];
    for (int i = 0; i < r.length; i++) r[i] = f.f(a[i]);
    return out(r);
  }

  // ------------------------------------------------------------- elementwise
  /** elementwise sum (length-one operands broadcast) */
  public static Value RvAdd(Value a, Value b) { return map2(a, b, (x, y) -> x + y); }
  /** elementwise difference */
  public static Value RvSub(Value a, Value b) { return map2(a, b, (x, y) -> x - y); }
  /** elementwise product; with a length-one operand this is scaling */
  public static Value RvMul(Value a, Value b) { return map2(a, b, (x, y) -> x * y); }
  /** elementwise quotient */
  public static Value RvDiv(Value a, Value b) { return map2(a, b, (x, y) -> x / y); }
  /** elementwise maximum */
  public static Value RvMax(Value a, Value b) { return map2(a, b, (x, y) -> x > y ? x : y); }
  /** elementwise minimum */
  public static Value RvMin(Value a, Value b) { return map2(a, b, (x, y) -> x < y ? x : y); }
  /** elementwise power */
  public static Value RvPow(Value a, Value b) { return map2(a, b, Math::pow); }
  /** elementwise negation */
  public static Value RvNeg(Value a) { return map1(a, x -> -x); }
  /** elementwise absolute value */
  public static Value RvAbs(Value a) { return map1(a, Math::abs); }
  /** elementwise square root */
  public static Value RvSqrt(Value a) { return map1(a, Math::sqrt); }
  /** elementwise natural logarithm (NaN below zero, -inf at zero) */
  public static Value RvLog(Value a) { return map1(a, Math::log); }
  /** elementwise exponential */
  public static Value RvExp(Value a) { return map1(a, Math::exp); }
  /** elementwise cosine of PI times the argument, reduced exactly */
  public static Value RvCosPi(Value a) {
    return map1(a, x -> { double y = x - 2 * Math.rint(x / 2); return Math.cos(Math.PI * y); });
  }
  /** elementwise ceiling */
  public static Value RvCeil(Value a) { return map1(a, Math::ceil); }
  /** elementwise: 1 if positive else 0 */
  public static Value RvPos(Value a) { return map1(a, x -> x > 0 ? 1.0 : 0.0); }
  /** elementwise choice: where m is non-zero take a, otherwise b */
  public static Value RvSel(Value m, Value a, Value b) {
    double[] c = v(m), x = v(a), y = v(b), r = new double[c.length];
    for (int i = 0; i < r.length; i++) r[i] = c[i] != 0 ? x[x.length == 1 ? 0 : i] : y[y.length == 1 ? 0 : i];
    return out(r);
  }
  // --------------------------------------------------------------- reductions
  /** sum of the elements (compensated) */
  public static Value RvSum(Value a) { return out(ksum(v(a))); }
  private static double ksum(double[] a) {
    double s = 0, c = 0;
    boolean bad = false;
    for (double x : a) if (Double.isNaN(x) || Double.isInfinite(x)) bad = true;
    if (bad) { for (double x : a) s += x; return s; }
    for (double x : a) { double y = x - c, t = s + y; c = (t - s) - y; s = t; }
    return s;
  }
  /** inner product */
  public static Value RvDot(Value a, Value b) { return out(dot(v(a), v(b))); }
  private static double dot(double[] a, double[] b) {
    if (a.length != b.length) throw new RuntimeException("RvDot length mismatch");
    double s = 0; for (int i = 0; i < a.length; i++) s += a[i] * b[i]; return s;
  }
  /** Euclidean norm */
  public static Value RvNrm2(Value a) { double[] x = v(a); return out(Math.sqrt(dot(x, x))); }
  /** sum of absolute values */
  public static Value RvNrm1(Value a) { double s = 0; for (double x : v(a)) s += Math.abs(x); return out(s); }
  /** largest absolute value (0 for the empty vector) */
  public static Value RvNrmInf(Value a) { double s = 0; for (double x : v(a)) s = Math.max(s, Math.abs(x)); return out(s); }
  /** largest element (NaN for the empty vector; NaN elements are skipped unless first) */
  public static Value RvMaxOf(Value a) {
    double[] x = v(a); if (x.length == 0) return out(Double.NaN);
    double s = x[0]; for (double y : x) if (y > s) s = y; return out(s);
  }
  /** smallest element (+inf for the empty vector) */
  public static Value RvMinOf(Value a) { double s = Double.POSITIVE_INFINITY; for (double y : v(a)) if (y < s) s = y; return out(s); }
  // --------------------------------------------------------------- comparisons
  /** every element of a is strictly below the matching element of b */
  public static Value RvLt(Value a, Value b) { return bool(all(a, b, 0)); }
  /** every element of a is at most the matching element of b */
  public static Value RvLe(Value a, Value b) { return bool(all(a, b, 1)); }
  /** same length and numerically equal elements; NaN equals NaN */
  public static Value RvEq(Value a, Value b) { return bool(v(a).length == v(b).length && all(a, b, 2)); }
  /** same length and bit-identical elements up to NaN payload (distinguishes -0 from 0) */
  public static Value RvSame(Value a, Value b) { return bool(Arrays.equals(v(a), v(b))); }
  private static boolean all(Value a, Value b, int k) {
    double[] x = v(a), y = v(b);
    int L = x.length == 1 ? y.length : x.length;
    if (x.length != y.length && x.length != 1 && y.length != 1) return false;
    for (int i = 0; i < L; i++) {
      double p = x[x.length == 1 ? 0 : i], q = y[y.length == 1 ? 0 : i];
      boolean ok = k == 0 ? p < q : k == 1 ? p <= q : (p == q || (Double.isNaN(p) && Double.isNaN(q)));
      if (!ok) return false;
    }
    return true;
  }
  /** same length and |a-b| <= atol + rtol*max|b| elementwise; non-finite elements must agree exactly */
  public static Value RvClose(Value a, Value b, Value atol, Value rtol) {
    double[] x = v(a), y = v(b);
    if (x.length != y.length) return bool(false);
    double s = 0; for (double q : y) if (!Double.isNaN(q) && !Double.isInfinite(q)) s = Math.max(s, Math.abs(q));
    double tol = v(atol)[0] + v(rtol)[0] * s;
    for (int i = 0; i < x.length; i++) if (!close1(x[i], y[i], tol)) return bool(false);
    return bool(true);
  }
  private static boolean close1(double p, double q, double tol) {
    if (Double.isNaN(p) || Double.isNaN(q)) return Double.isNaN(p) && Double.isNaN(q);
    if (Double.isInfinite(p) || Double.isInfinite(q)) return p == q;
    return Math.abs(p - q) <= tol;
  }
  /** same length and |a_i-b_i| <= atol + rtol*|b_i| for every i; non-finite elements must agree exactly */
  public static Value RvCloseEl(Value a, Value b, Value atol, Value rtol) {
    double[] x = v(a), y = v(b); double at = v(atol)[0], rt = v(rtol)[0];
    if (x.length != y.length) return bool(false);
    for (int i = 0; i < x.length; i++) if (!close1(x[i], y[i], at + rt * Math.abs(y[i]))) return bool(false);
    return bool(true);
  }
  /** some element is NaN */
  public static Value RvHasNaN(Value a) { for (double x : v(a)) if (Double.isNaN(x)) return bool(true); return bool(false); }
  /** every element is finite */
  public static Value RvFinite(Value a) { for (double x : v(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return bool(false); return bool(true); }
  // ----------------------------------------------------------------- structure
  /** number of elements (TLA+ integer) */
  public static Value RvLen(Value a) { return IntValue.gen(v(a).length); }
  /** element i, 1-based, as a length-one vector */
  public static Value RvAt(Value a, Value i) { return out(v(a)[n(i) - 1]); }
  /** replace element i (1-based) */
  public static Value RvSet(Value a, Value i, Value x) { double[] r = v(a).clone(); r[n(i) - 1] = v(x)[0]; return out(r); }
  /** cnt elements starting at 1-based position i */
  public static Value RvSlice(Value a, Value i, Value cnt) { return out(Arrays.copyOfRange(v(a), n(i) - 1, n(i) - 1 + n(cnt))); }
  /** concatenation */
  public static Value RvCat(Value a, Value b) {
    double[] x = v(a), y = v(b), r = Arrays.copyOf(x, x.length + y.length);
    System.arraycopy(y, 0, r, x.length, y.length); return out(r);
  }
  /** cnt copies of the scalar c */
  public static Value RvConst(Value cnt, Value c) { double[] r = new double[n(cnt)]; Arrays.fill(r, v(c)[0]); return out(r); }
  /** the vector 0, 1, ..., cnt-1 */
  public static Value RvIota(Value cnt) { double[] r = new double[n(cnt)]; for (int i = 0; i < r.length; i++) r[i] = i; return out(r); }
  /** a[idx] for a vector of 0-based indices */
  public static Value RvGather(Value a, Value idx) { double[] x = v(a), k = v(idx), r = new double[k.length]; for (int i = 0; i < r.length; i++) r[i] = x[(int) k[i]]; return out(r); }
  /** zero vector of length cnt with a[i] stored at 0-based idx[i] (last write wins) */
  public static Value RvScatter(Value cnt, Value idx, Value a) { double[] r = new double[n(cnt)], k = v(idx), x = v(a); for (int i = 0; i < k.length; i++) r[(int) k[i]] = x[i]; return out(r); }
  /** outer product, row-major */
  public static Value RvOuter(Value a, Value b) { double[] x = v(a), y = v(b), r = new double[x.length * y.length]; for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i * y.length + j] = x[i] * y[j]; return out(r); }
  /** row-major matrix with Len(x) columns times vector */
  public static Value RvMatVec(Value A, Value x) {
    double[] a = v(A), p = v(x); int m = p.length, k = a.length / m; double[] r = new double[k];
    for (int i = 0; i < k; i++) { double s = 0; for (int j = 0; j < m; j++) s += a[i * m + j] * p[j]; r[i] = s; }
    return out(r);
  }
  /** transpose of a row-major matrix with Len(y) rows times vector */
  public static Value RvMatTVec(Value A, Value y) {
    double[] a = v(A), p = v(y); int k = p.length, m = a.length / k; double[] r = new double[m];
    for (int i = 0; i < k; i++) for (int j = 0; j < m; j++) r[j] += a[i * m + j] * p[i];
    return out(r);
  }
  /** matrix product of row-major A (k columns) and B (k rows) */
  public static Value RvMatMul(Value A, Value B, Value k) {
    double[] a = v(A), b = v(B); int K = n(k), p = a.length / K, q = b.length / K; double[] r = new double[p * q];
    for (int i = 0; i < p; i++) for (int t = 0; t < K; t++) { double c = a[i * K + t]; if (c != 0) for (int j = 0; j < q; j++) r[i * q + j] += c * b[t * q + j]; }
    return out(r);
  }
  /** transpose of a row-major matrix with the given number of rows */
  public static Value RvTrans(Value A, Value rows) {
    double[] a = v(A); int p = n(rows), q = p == 0 ? 0 : a.length / p; double[] r = new double[a.length];
    for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) r[j * p + i] = a[i * q + j];
    return out(r);
  }
  /** row-major diagonal matrix */
  public static Value RvDiag(Value a) { double[] x = v(a), r = new double[x.length * x.length]; for (int i = 0; i < x.length; i++) r[i * x.length + i] = x[i]; return out(r); }
  /** solution of the square row-major system A x = b (Gaussian elimination, partial pivoting) */
  public static Value RvSolve(Value A, Value b) {
    double[] y = v(b); int k = y.length; double[][] M = new double[k][k + 1]; double[] a = v(A);
    for (int i = 0; i < k; i++) { System.arraycopy(a, i * k, M[i], 0, k); M[i][k] = y[i]; }
    for (int c = 0; c < k; c++) {
      int p = c; for (int i = c + 1; i < k; i++) if (Math.abs(M[i][c]) > Math.abs(M[p][c])) p = i;
      double[] t = M[c]; M[c] = M[p]; M[p] = t;
      for (int i = c + 1; i < k; i++) { double f = M[i][c] / M[c][c]; if (f != 0) for (int j = c; j <= k; j++) M[i][j] -= f * M[c][j]; }
    }
    double[] r = new double[k];
    for (int i = k - 1; i >= 0; i--) { double s = M[i][k]; for (int j = i + 1; j < k; j++) s -= M[i][j] * r[j]; r[i] = s / M[i][i]; }
    return out(r);
  }
  /** spectral norm of a row-major matrix with the given number of columns (power iteration on A'A; lower bound accurate to about 1e-6) */
  public static Value RvSpec(Value A, Value cols) {
    double[] a = v(A); int m = n(cols), k = a.length / m; double[] x = new double[m];
    Random rg = new Random(7); for (int i = 0; i < m; i++) x[i] = rg.nextDouble() + 0.1;
    double s = 0;
    for (int it = 0; it < 2000; it++) {
      double nx = 0; for (double t : x) nx += t * t; nx = Math.sqrt(nx); if (nx == 0) return out(0.0);
      for (int i = 0; i < m; i++) x[i] /= nx;
      double[] y = new double[k], z = new double[m];
      for (int i = 0; i < k; i++) { double t = 0; for (int j = 0; j < m; j++) t += a[i * m + j] * x[j]; y[i] = t; }
      for (int i = 0; i < k; i++) for (int j = 0; j < m; j++) z[j] += a[i * m + j] * y[i];
      double ny = 0; for (double t : y) ny += t * t; double sn = Math.sqrt(ny);
      if (it > 20 && Math.abs(sn - s) < 1e-13 * sn) { s = sn; break; }
      s = sn; x = z;
    }
    return out(s);
  }
  // ---------------------------------------------------------------- conversion
  /** TLA+ integer as a real scalar */
  public static Value RvInt(Value k) { return out((double) ((IntValue) k).val); }
  /** real scalar as a TLA+ integer (must be integral) */
  public static Value RvToInt(Value a) { return IntValue.gen((int) v(a)[0]); }
  /** readable rendering of the first elements, for messages */
  public static Value RvShow(Value a) { double[] x = v(a); StringBuilder sb = new StringBuilder("["); for (int i = 0; i < Math.min(x.length, 12); i++) sb.append(i > 0 ? " " : "").append(show(x[i])); if (x.length > 12) sb.append(" ... len ").append(x.length); return new StringValue(sb.append("]").toString()); }
  /** largest |a-b| with its position, for messages */
  public static Value RvDiff(Value a, Value b) {
    double[] x = v(a), y = v(b); if (x.length != y.length) return new StringValue("length " + x.length + " vs " + y.length);
    int w = -1; double d = -1; for (int i = 0; i < x.length; i++) { double t = Math.abs(x[i] - y[i]); if (Double.isNaN(t) && !(Double.isNaN(x[i]) && Double.isNaN(y[i])) && !(x[i] == y[i])) { w = i; d = t; break; } if (t > d) { d = t; w = i; } }
    return new StringValue(w < 0 ? "equal" : "max diff " + show(d) + " at " + w + ": " + show(x[w]) + " vs " + show(y[w]));
  }
}
