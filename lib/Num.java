// TLC operator overrides for module Num (see specs/Num.tla).
// A number is a TLA+ string: a decimal literal, or one of "inf", "-inf", "nan".
// Arithmetic is decimal with 34 significant digits; transcendental functions are
// IEEE double (about 1e-15 relative).
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class Num {
    static final MathContext MC = new MathContext(34, RoundingMode.HALF_EVEN);
    static final java.util.concurrent.ConcurrentHashMap<String, BigDecimal> cache =
        new java.util.concurrent.ConcurrentHashMap<String, BigDecimal>();

    static String str(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("Num: not a number: " + v);
    }
    static boolean special(String s) {
        return s.equals("inf") || s.equals("-inf") || s.equals("nan");
    }
    static BigDecimal dec(String s) {
        BigDecimal b = cache.get(s);
        if (b == null) {
            b = new BigDecimal(s);
            if (cache.size() < 200000) cache.put(s, b);
        }
        return b;
    }
    static double dbl(String s) {
        if (s.equals("inf")) return Double.POSITIVE_INFINITY;
        if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
        if (s.equals("nan")) return Double.NaN;
        return dec(s).doubleValue();
    }
    static Value out(BigDecimal b) {
        b = b.round(MC);
        if (b.signum() == 0) return new StringValue("0");
        return new StringValue(b.stripTrailingZeros().toString());
    }
    static Value outd(double d) {
        if (Double.isNaN(d)) return new StringValue("nan");
        if (d == Double.POSITIVE_INFINITY) return new StringValue("inf");
        if (d == Double.NEGATIVE_INFINITY) return new StringValue("-inf");
        return out(new BigDecimal(d));
    }

    public static Value NAdd(Value a, Value b) {
        String x = str(a), y = str(b);
        if (special(x) || special(y)) return outd(dbl(x) + dbl(y));
        return out(dec(x).add(dec(y)));
    }
    public static Value NSub(Value a, Value b) {
        String x = str(a), y = str(b);
        if (special(x) || special(y)) return outd(dbl(x) - dbl(y));
        return out(dec(x).subtract(dec(y)));
    }
    public static Value NMul(Value a, Value b) {
        String x = str(a), y = str(b);
        if (special(x) || special(y)) return outd(dbl(x) * dbl(y));
        return out(dec(x).multiply(dec(y)));
    }
    public static Value NDiv(Value a, Value b) {
        String x = str(a), y = str(b);
        if (special(x) || special(y)) return outd(dbl(x) / dbl(y));
        BigDecimal q = dec(y);
        if (q.signum() == 0) return outd(dbl(x) / 0.0);
        return out(dec(x).divide(q, MC));
    }
    public static Value NNeg(Value a) {
        String x = str(a);
        if (special(x)) return outd(-dbl(x));
        return out(dec(x).negate());
    }
    public static Value NAbs(Value a) {
        String x = str(a);
        if (special(x)) return outd(Math.abs(dbl(x)));
        return out(dec(x).abs());
    }
    static int cmp(String x, String y) {
        if (special(x) || special(y)) {
            double p = dbl(x), q = dbl(y);
            if (Double.isNaN(p) || Double.isNaN(q)) return 2;
            return p < q ? -1 : p > q ? 1 : 0;
        }
        return dec(x).compareTo(dec(y));
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value NLt(Value a, Value b) { return bool(cmp(str(a), str(b)) == -1); }
    public static Value NLe(Value a, Value b) { int c = cmp(str(a), str(b)); return bool(c == -1 || c == 0); }
    public static Value NEq(Value a, Value b) { return bool(cmp(str(a), str(b)) == 0); }
    public static Value NIsNum(Value a) { return bool(!special(str(a))); }
    public static Value NIsNan(Value a) { return bool(str(a).equals("nan")); }
    // |a-b| <= rel * max(|a|,|b|,1) ; infinities equal only to themselves; nan equals nan
    public static Value NClose(Value a, Value b, Value tol) {
        String x = str(a), y = str(b);
        if (special(x) || special(y)) return bool(x.equals(y));
        BigDecimal p = dec(x), q = dec(y), t = dec(str(tol));
        BigDecimal m = p.abs().max(q.abs()).max(BigDecimal.ONE);
        return bool(p.subtract(q).abs().compareTo(t.multiply(m)) <= 0);
    }
    public static Value NExp(Value a) { return outd(Math.exp(dbl(str(a)))); }
    public static Value NLn(Value a) { return outd(Math.log(dbl(str(a)))); }
    public static Value NSin(Value a) { return outd(Math.sin(dbl(str(a)))); }
    public static Value NCos(Value a) { return outd(Math.cos(dbl(str(a)))); }
    public static Value NAtan(Value a) { return outd(Math.atan(dbl(str(a)))); }
    public static Value NAtan2(Value a, Value b) { return outd(Math.atan2(dbl(str(a)), dbl(str(b)))); }
    public static Value NPow(Value a, Value b) { return outd(Math.pow(dbl(str(a)), dbl(str(b)))); }
    public static Value NSqrt(Value a) {
        String x = str(a);
        if (special(x)) return outd(Math.sqrt(dbl(x)));
        BigDecimal d = dec(x);
        if (d.signum() < 0) return new StringValue("nan");
        return out(d.sqrt(MC));
    }
    public static Value NFloor(Value a) {
        String x = str(a);
        if (special(x)) return outd(dbl(x));
        return out(dec(x).setScale(0, RoundingMode.FLOOR));
    }
    // log Gamma (Lanczos), erf (series / continued fraction): double accuracy
    public static Value NLnGamma(Value a) { return outd(lgamma(dbl(str(a)))); }
    static double lgamma(double x) {
        if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
        double[] g = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
            -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
        x -= 1;
        double s = g[0];
        for (int i = 1; i < 9; i++) s += g[i] / (x + i);
        double t = x + 7.5;
        return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(s);
    }
    public static Value NErf(Value a) { return outd(erf(dbl(str(a)))); }
    static double erf(double x) {
        if (x < 0) return -erf(-x);
        if (x > 6) return 1.0;
        if (x < 3) {
            double s = x, t = x;
            for (int n = 1; n < 200; n++) { t *= -x * x / n; s += t / (2 * n + 1); if (Math.abs(t) < 1e-18) break; }
            return 2 / Math.sqrt(Math.PI) * s;
        }
        double f = 0;
        for (int k = 60; k >= 1; k--) f = k / 2.0 / (x + f);
        return 1 - Math.exp(-x * x) / Math.sqrt(Math.PI) / (x + f);
    }
    public static Value NOfInt(Value a) { return new StringValue(str(a)); }
    public static Value NToInt(Value a) { return IntValue.gen(dec(str(a)).intValueExact()); }
    // sum of a sequence of numbers
    public static Value NSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigDecimal acc = BigDecimal.ZERO; double sp = 0; boolean anysp = false;
        for (Value v : t.elems) {
            String x = str(v);
            if (special(x)) { anysp = true; sp += dbl(x); }
            else acc = acc.add(dec(x), MC);
        }
        return anysp ? outd(sp + acc.doubleValue()) : out(acc);
    }
    // inner product of two sequences of equal length
    public static Value NDot(Value s, Value r) {
        TupleValue t = (TupleValue) s.toTuple(), u = (TupleValue) r.toTuple();
        if (t.elems.length != u.elems.length) return new StringValue("nan");
        BigDecimal acc = BigDecimal.ZERO; double sp = 0; boolean anysp = false;
        for (int i = 0; i < t.elems.length; i++) {
            String x = str(t.elems[i]), y = str(u.elems[i]);
            if (special(x) || special(y)) { anysp = true; sp += dbl(x) * dbl(y); }
            else acc = acc.add(dec(x).multiply(dec(y), MC), MC);
        }
        return anysp ? outd(sp + acc.doubleValue()) : out(acc);
    }
    // a*u + b*w, elementwise over two sequences of equal length
    public static Value VLin(Value a, Value u, Value b, Value w) {
        TupleValue t = (TupleValue) u.toTuple(), r = (TupleValue) w.toTuple();
        int n = t.elems.length;
        Value[] o = new Value[n];
        for (int i = 0; i < n; i++) o[i] = NAdd(NMul(a, t.elems[i]), NMul(b, r.elems[i]));
        return new TupleValue(o);
    }
    public static Value VScale(Value a, Value u) {
        TupleValue t = (TupleValue) u.toTuple();
        int n = t.elems.length;
        Value[] o = new Value[n];
        for (int i = 0; i < n; i++) o[i] = NMul(a, t.elems[i]);
        return new TupleValue(o);
    }
    // ln |det| and solution of a square system, in double precision
    static double[][] mat(Value m) {
        TupleValue t = (TupleValue) m.toTuple();
        double[][] a = new double[t.elems.length][];
        for (int i = 0; i < a.length; i++) {
            TupleValue r = (TupleValue) t.elems[i].toTuple();
            a[i] = new double[r.elems.length];
            for (int j = 0; j < a[i].length; j++) a[i][j] = dbl(str(r.elems[j]));
        }
        return a;
    }
    public static Value MLnDet(Value m) {
        double[][] a = mat(m);
        int n = a.length;
        double s = 0;
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
            double[] q = a[p]; a[p] = a[k]; a[k] = q;
            if (a[k][k] == 0) return new StringValue("-inf");
            s += Math.log(Math.abs(a[k][k]));
            for (int i = k + 1; i < n; i++) {
                double f = a[i][k] / a[k][k];
                for (int j = k; j < n; j++) a[i][j] -= f * a[k][j];
            }
        }
        return outd(s);
    }
    public static Value MSolve(Value m, Value v) {
        double[][] a = mat(m);
        TupleValue t = (TupleValue) v.toTuple();
        int n = a.length;
        double[] b = new double[n];
        for (int i = 0; i < n; i++) b[i] = dbl(str(t.elems[i]));
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
            double[] q = a[p]; a[p] = a[k]; a[k] = q;
            double w = b[p]; b[p] = b[k]; b[k] = w;
            for (int i = k + 1; i < n; i++) {
                double f = a[i][k] / a[k][k];
                b[i] -= f * b[k];
                for (int j = k; j < n; j++) a[i][j] -= f * a[k][j];
            }
        }
        Value[] o = new Value[n];
        for (int k = n - 1; k >= 0; k--) {
            double s = b[k];
            for (int j = k + 1; j < n; j++) s -= a[k][j] * b[j];
            b[k] = s / a[k][k];
        }
        for (int k = 0; k < n; k++) o[k] = outd(b[k]);
        return new TupleValue(o);
    }
    // Faddeeva function w(z), Im z > 0 (Weideman 1994, N = 64): about 1e-13
    static final int WN = 64;
    static double[] wa = null;
    static final double WL = Math.sqrt(WN / Math.sqrt(2.0));
    static synchronized void winit() {
        if (wa != null) return;
        int M = 2 * WN, M2 = 2 * M;
        double[] f = new double[M2];
        for (int k = -M + 1; k < M; k++) {
            double th = k * Math.PI / M, t = WL * Math.tan(th / 2);
            f[k + M] = Math.exp(-t * t) * (WL * WL + t * t);
        }
        f[0] = 0;
        double[] a = new double[WN];
        for (int n = 1; n <= WN; n++) {
            double s = 0;
            for (int k = -M + 1; k < M; k++) s += f[k + M] * Math.cos(n * k * Math.PI / M);
            a[n - 1] = s / M2;
        }
        wa = a;
    }
    public static Value NWofz(Value a, Value b) {
        winit();
        double x = dbl(str(a)), y = dbl(str(b));
        // Z = (L + i z)/(L - i z), with i z = -y + i x
        double nr = WL - y, ni = x, dr = WL + y, di = -x;
        double dd = dr * dr + di * di;
        double zr = (nr * dr + ni * di) / dd, zi = (ni * dr - nr * di) / dd;
        double pr = 0, pi = 0;
        for (int n = WN; n >= 1; n--) {
            double t = pr * zr - pi * zi + wa[n - 1];
            pi = pr * zi + pi * zr;
            pr = t;
        }
        // w = 2 p / (L - i z)^2 + (1/sqrt(pi)) / (L - i z)
        double qr = dr * dr - di * di, qi = 2 * dr * di, qq = qr * qr + qi * qi;
        double wr = 2 * (pr * qr + pi * qi) / qq + dr / dd / Math.sqrt(Math.PI);
        double wi = 2 * (pi * qr - pr * qi) / qq - di / dd / Math.sqrt(Math.PI);
        return new TupleValue(new Value[] { outd(wr), outd(wi) });
    }
}
