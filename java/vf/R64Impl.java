package vf;

import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Java side of module R64. Every operator is total: a value that is not a number counts as NaN. */
public final class R64Impl {
    private static final ConcurrentHashMap<String, DVal> LIT = new ConcurrentHashMap<>();

    public static double d(final Value v) {
        if (v instanceof DVal) return ((DVal) v).d;
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof QVal) return ((QVal) v).dbl();
        if (v instanceof StringValue) return ((DVal) lit(v)).d;
        return Double.NaN;
    }
    /** Exact arithmetic applies when one operand is exact and neither is binary64. */
    private static boolean ex(final Value a, final Value c) {
        return (a instanceof QVal || c instanceof QVal) && !(a instanceof DVal) && !(c instanceof DVal);
    }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value r(final double x) { return new DVal(x); }

    @TLAPlusOperator(identifier = "R", module = "R64", warn = false)
    public static Value lit(final Value s) {
        if (!(s instanceof StringValue)) return r(d(s));
        final String t = ((StringValue) s).val.toString();
        DVal v = LIT.get(t);
        if (v == null) {
            double x;
            try { final char c = t.isEmpty() ? '!' : t.charAt(t.length() - 1); x = c == 'f' || c == 'd' || c == 'F' || c == 'D' ? Double.NaN : Double.parseDouble(t); } catch (NumberFormatException e) { x = Double.NaN; }
            v = new DVal(x); LIT.put(t, v);
        }
        return v;
    }
    @TLAPlusOperator(identifier = "++", module = "R64", warn = false)
    public static Value add(final Value a, final Value c) { return ex(a, c) ? QImpl.add(a, c) : r(d(a) + d(c)); }
    @TLAPlusOperator(identifier = "--", module = "R64", warn = false)
    public static Value sub(final Value a, final Value c) { return ex(a, c) ? QImpl.sub(a, c) : r(d(a) - d(c)); }
    @TLAPlusOperator(identifier = "**", module = "R64", warn = false)
    public static Value mul(final Value a, final Value c) { return ex(a, c) ? QImpl.mul(a, c) : r(d(a) * d(c)); }
    @TLAPlusOperator(identifier = "//", module = "R64", warn = false)
    public static Value div(final Value a, final Value c) { return ex(a, c) ? QImpl.div(a, c) : r(d(a) / d(c)); }
    @TLAPlusOperator(identifier = "\\prec", module = "R64", warn = false)
    public static Value lt(final Value a, final Value c) { return b(ex(a, c) ? QImpl.cmp(a, c) < 0 : d(a) < d(c)); }
    @TLAPlusOperator(identifier = "\\preceq", module = "R64", warn = false)
    public static Value le(final Value a, final Value c) { return b(ex(a, c) ? QImpl.cmp(a, c) <= 0 : d(a) <= d(c)); }
    @TLAPlusOperator(identifier = "\\succ", module = "R64", warn = false)
    public static Value gt(final Value a, final Value c) { return b(ex(a, c) ? QImpl.cmp(a, c) > 0 : d(a) > d(c)); }
    @TLAPlusOperator(identifier = "\\succeq", module = "R64", warn = false)
    public static Value ge(final Value a, final Value c) { return b(ex(a, c) ? QImpl.cmp(a, c) >= 0 : d(a) >= d(c)); }
    @TLAPlusOperator(identifier = "REq", module = "R64", warn = false)
    public static Value req(final Value a, final Value c) { return b(ex(a, c) ? QImpl.cmp(a, c) == 0 : d(a) == d(c)); }
    @TLAPlusOperator(identifier = "Neg", module = "R64", warn = false)
    public static Value neg(final Value a) { return a instanceof QVal ? QImpl.neg(a) : r(-d(a)); }
    @TLAPlusOperator(identifier = "Abs", module = "R64", warn = false)
    public static Value abs(final Value a) { return a instanceof QVal ? QImpl.abs(a) : r(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "Sqrt", module = "R64", warn = false)
    public static Value sqrt(final Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "Cbrt", module = "R64", warn = false)
    public static Value cbrt(final Value a) { return r(Math.cbrt(d(a))); }
    @TLAPlusOperator(identifier = "Ln", module = "R64", warn = false)
    public static Value ln(final Value a) { return r(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "Log10", module = "R64", warn = false)
    public static Value log10(final Value a) { return r(Math.log10(d(a))); }
    @TLAPlusOperator(identifier = "Exp", module = "R64", warn = false)
    public static Value exp(final Value a) { return r(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "^^", module = "R64", warn = false)
    public static Value pow(final Value a, final Value c) { return a instanceof QVal && c instanceof IntValue ? QImpl.pow(a, c) : r(Math.pow(d(a), d(c))); }
    @TLAPlusOperator(identifier = "Sin", module = "R64", warn = false)
    public static Value sin(final Value a) { return r(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "Cos", module = "R64", warn = false)
    public static Value cos(final Value a) { return r(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "Tan", module = "R64", warn = false)
    public static Value tan(final Value a) { return r(Math.tan(d(a))); }
    @TLAPlusOperator(identifier = "Asin", module = "R64", warn = false)
    public static Value asin(final Value a) { return r(Math.asin(d(a))); }
    @TLAPlusOperator(identifier = "Acos", module = "R64", warn = false)
    public static Value acos(final Value a) { return r(Math.acos(d(a))); }
    @TLAPlusOperator(identifier = "Atan", module = "R64", warn = false)
    public static Value atan(final Value a) { return r(Math.atan(d(a))); }
    @TLAPlusOperator(identifier = "Atan2", module = "R64", warn = false)
    public static Value atan2(final Value a, final Value c) { return r(Math.atan2(d(a), d(c))); }
    @TLAPlusOperator(identifier = "Sinh", module = "R64", warn = false)
    public static Value sinh(final Value a) { return r(Math.sinh(d(a))); }
    @TLAPlusOperator(identifier = "Cosh", module = "R64", warn = false)
    public static Value cosh(final Value a) { return r(Math.cosh(d(a))); }
    @TLAPlusOperator(identifier = "Tanh", module = "R64", warn = false)
    public static Value tanh(final Value a) { return r(Math.tanh(d(a))); }
    @TLAPlusOperator(identifier = "Floor", module = "R64", warn = false)
    public static Value floor(final Value a) { return r(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "RMin", module = "R64", warn = false)
    public static Value min(final Value a, final Value c) { return r(Math.min(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RMax", module = "R64", warn = false)
    public static Value max(final Value a, final Value c) { return r(Math.max(d(a), d(c))); }
    @TLAPlusOperator(identifier = "Erf", module = "R64", warn = false)
    public static Value erf(final Value a) { return r(Special.erf(d(a))); }
    @TLAPlusOperator(identifier = "Finite", module = "R64", warn = false)
    public static Value finite(final Value a) { final double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "IsNum", module = "R64", warn = false)
    public static Value isNum(final Value a) { return b(a instanceof DVal || a instanceof IntValue || a instanceof QVal); }
    @TLAPlusOperator(identifier = "Truncate", module = "R64", warn = false)
    public static Value toInt(final Value a) {
        final double x = d(a);
        if (!(Math.abs(x) < 2147483647.0)) return IntValue.gen(Integer.MIN_VALUE);
        return IntValue.gen((int) x);
    }
    @TLAPlusOperator(identifier = "Close", module = "R64", warn = false)
    public static Value close(final Value a, final Value c, final Value rt) { return b(cl(d(a), d(c), dl(rt), 0.0)); }
    @TLAPlusOperator(identifier = "CloseA", module = "R64", warn = false)
    public static Value closeA(final Value a, final Value c, final Value rt, final Value at) { return b(cl(d(a), d(c), dl(rt), dl(at))); }
    private static double dl(final Value v) { return v instanceof StringValue ? ((DVal) lit(v)).d : d(v); }
    public static boolean cl(final double x, final double y, final double rt, final double at) {
        if (Double.isNaN(x) || Double.isNaN(y)) return false;
        if (x == y) return true;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
        final double df = Math.abs(x - y);
        return df <= rt * Math.max(Math.abs(x), Math.abs(y)) || df <= at;
    }
    private static Value[] elems(final Value s) {
        final Value t = isSeq(s) ? s.toTuple() : null;
        if (t instanceof TupleValue) return ((TupleValue) t).elems;
        return null;
    }
    @TLAPlusOperator(identifier = "RSum", module = "R64", warn = false)
    public static Value sum(final Value s) {
        final Value[] es = elems(s);
        if (es == null) return r(Double.NaN);
        double t = 0, c = 0;
        for (final Value e : es) { final double y = d(e) - c; final double u = t + y; c = (u - t) - y; t = u; }
        return r(t);
    }
    @TLAPlusOperator(identifier = "RMaxSeq", module = "R64", warn = false)
    public static Value maxs(final Value s) {
        final Value[] es = elems(s);
        if (es == null) return r(Double.NaN);
        double t = Double.NEGATIVE_INFINITY;
        for (final Value e : es) t = Math.max(t, d(e));
        return r(t);
    }
    @TLAPlusOperator(identifier = "RMinSeq", module = "R64", warn = false)
    public static Value mins(final Value s) {
        final Value[] es = elems(s);
        if (es == null) return r(Double.NaN);
        double t = Double.POSITIVE_INFINITY;
        for (final Value e : es) t = Math.min(t, d(e));
        return r(t);
    }
    /** Sequences of numbers equal in length and close elementwise (nested sequences compared recursively). */
    @TLAPlusOperator(identifier = "CloseSeq", module = "R64", warn = false)
    public static Value closeSeq(final Value a, final Value c, final Value rt, final Value at) { return b(cs(a, c, dl(rt), dl(at))); }
    private static boolean isSeq(final Value v) { return v instanceof TupleValue || (v instanceof FcnRcdValue || v instanceof FcnLambdaValue) && v.toTuple() != null; }
    private static boolean cs(final Value a, final Value c, final double rt, final double at) {
        if (isSeq(a) || isSeq(c)) {
            if (!(isSeq(a) && isSeq(c))) return false;
            final Value[] x = elems(a), y = elems(c);
            if (x == null || y == null || x.length != y.length) return false;
            for (int i = 0; i < x.length; i++) if (!cs(x[i], y[i], rt, at)) return false;
            return true;
        }
        return cl(d(a), d(c), rt, at);
    }
    /** Total equality over any two values (never an error; values of different kinds are different). */
    @TLAPlusOperator(identifier = "Same", module = "R64", warn = false)
    public static Value same(final Value a, final Value c) { return b(sm(a, c)); }
    private static boolean sm(final Value a, final Value c) {
        if (a instanceof StringValue || c instanceof StringValue)
            return a instanceof StringValue && c instanceof StringValue && a.equals(c);
        if (a instanceof BoolValue || c instanceof BoolValue)
            return a instanceof BoolValue && c instanceof BoolValue && ((BoolValue) a).val == ((BoolValue) c).val;
        if (isSeq(a) && isSeq(c)) {
            final Value[] x = elems(a), y = elems(c);
            if (x == null || y == null || x.length != y.length) return false;
            for (int i = 0; i < x.length; i++) if (!sm(x[i], y[i])) return false;
            return true;
        }
        if (isSeq(a) || isSeq(c)) return false;
        if (a instanceof RecordValue && c instanceof RecordValue) {
            final RecordValue p = (RecordValue) a, q = (RecordValue) c;
            if (p.names.length != q.names.length) return false;
            for (int i = 0; i < p.names.length; i++) {
                boolean hit = false;
                for (int j = 0; j < q.names.length; j++)
                    if (p.names[i].equals(q.names[j])) { hit = sm(p.values[i], q.values[j]); break; }
                if (!hit) return false;
            }
            return true;
        }
        if (a instanceof RecordValue || c instanceof RecordValue) return false;
        if (a instanceof QVal && c instanceof QVal) return a.equals(c);
        final double x = d(a), y = d(c);
        if (Double.isNaN(x) && Double.isNaN(y)) return a instanceof DVal && c instanceof DVal;
        return x == y;
    }
    @TLAPlusOperator(identifier = "IsErr", module = "R64", warn = false)
    public static Value isErr(final Value a) { return b(a instanceof StringValue && ((StringValue) a).val.toString().startsWith("!")); }
    @TLAPlusOperator(identifier = "ErrIs", module = "R64", warn = false)
    public static Value errIs(final Value a, final Value k) {
        return b(a instanceof StringValue && k instanceof StringValue && ((StringValue) a).val.toString().equals("!" + ((StringValue) k).val.toString()));
    }
    @TLAPlusOperator(identifier = "IsSeq", module = "R64", warn = false)
    public static Value isSeqOp(final Value a) { return b(isSeq(a)); }
    @TLAPlusOperator(identifier = "IsStr", module = "R64", warn = false)
    public static Value isStr(final Value a) { return b(a instanceof StringValue); }
    @TLAPlusOperator(identifier = "IsBool", module = "R64", warn = false)
    public static Value isBool(final Value a) { return b(a instanceof BoolValue); }
    @TLAPlusOperator(identifier = "IsTrue", module = "R64", warn = false)
    public static Value isTrue(final Value a) { return b(a instanceof BoolValue && ((BoolValue) a).val); }
    @TLAPlusOperator(identifier = "IsFalse", module = "R64", warn = false)
    public static Value isFalse(final Value a) { return b(a instanceof BoolValue && !((BoolValue) a).val); }
    @TLAPlusOperator(identifier = "IsInt", module = "R64", warn = false)
    public static Value isInt(final Value a) { return b(a instanceof IntValue); }
    @TLAPlusOperator(identifier = "IsRec", module = "R64", warn = false)
    public static Value isRec(final Value a) { return b(a instanceof RecordValue); }
    private static RecordValue rcd(final Value a) {
        if (a instanceof RecordValue) return (RecordValue) a;
        if (a instanceof FcnRcdValue || a instanceof FcnLambdaValue) { final Value t = a.toRcd(); if (t instanceof RecordValue) return (RecordValue) t; }
        return null;
    }
    @TLAPlusOperator(identifier = "Has", module = "R64", warn = false)
    public static Value has(final Value a, final Value k) {
        final RecordValue q = rcd(a);
        if (q == null || !(k instanceof StringValue)) return BoolValue.ValFalse;
        for (final util.UniqueString n : q.names) if (n.equals(((StringValue) k).val)) return BoolValue.ValTrue;
        return BoolValue.ValFalse;
    }
    /** Field k of record a; the string "!absent" where there is none. */
    @TLAPlusOperator(identifier = "Get", module = "R64", warn = false)
    public static Value get(final Value a, final Value k) {
        final RecordValue q = rcd(a);
        if (q != null && k instanceof StringValue)
            for (int i = 0; i < q.names.length; i++) if (q.names[i].equals(((StringValue) k).val)) return q.values[i];
        return ABSENT;
    }
    private static final StringValue ABSENT = new StringValue("!absent");
    /** The value sum(c[k] * x^k), c[1] the constant term. */
    @TLAPlusOperator(identifier = "Poly", module = "R64", warn = false)
    public static Value poly(final Value cs, final Value x) {
        final Value[] es = elems(cs);
        if (es == null) return r(Double.NaN);
        double t = 0; final double y = d(x);
        for (int k = es.length - 1; k >= 0; k--) t = t * y + d(es[k]);
        return r(t);
    }
    /** Linear interpolation in the increasing table xs, ys; the end values outside it. */
    @TLAPlusOperator(identifier = "Interp", module = "R64", warn = false)
    public static Value interp(final Value x0, final Value xs, final Value ys) {
        final Value[] p = elems(xs), q = elems(ys);
        final double x = d(x0);
        if (p == null || q == null || p.length != q.length || p.length == 0 || Double.isNaN(x)) return r(Double.NaN);
        if (x <= d(p[0])) return r(d(q[0]));
        if (x >= d(p[p.length - 1])) return r(d(q[q.length - 1]));
        int k = 1;
        while (d(p[k]) < x) k++;
        final double u = d(p[k - 1]), v = d(p[k]);
        return r(d(q[k - 1]) + (d(q[k]) - d(q[k - 1])) * ((x - u) / (v - u)));
    }
    private static double[] arr(final Value v) {
        final Value[] e = elems(v);
        if (e == null) return null;
        final double[] o = new double[e.length];
        for (int i = 0; i < o.length; i++) o[i] = d(e[i]);
        return o;
    }
    /** Values at x of the k + 1 B-splines of degree k that are not zero on knot interval l (Cox - de Boor). */
    private static double[] basis(final double[] t, final int k, final int l, final double x) {
        final double[] b = new double[k + 1];
        b[0] = 1;
        for (int j = 1; j <= k; j++) {
            double s = 0;
            for (int i = 0; i < j; i++) {
                final double hi = t[l + i + 1], lo = t[l + i + 1 - j], w = b[i] / (hi - lo);
                b[i] = s + w * (hi - x);
                s = w * (x - lo);
            }
            b[j] = s;
        }
        return b;
    }
    private static int knot(final double[] t, final int k, final double x) {
        int l = k;
        while (l < t.length - k - 2 && t[l + 1] <= x) l++;
        return l;
    }
    /** Spline of degree k with knots t and coefficients c, its end polynomials continued outside the knots. */
    @TLAPlusOperator(identifier = "BSpl", module = "R64", warn = false)
    public static Value bspl(final Value t0, final Value c0, final Value k0, final Value x0) {
        final double[] t = arr(t0), c = arr(c0);
        final double x = d(x0);
        if (t == null || c == null || Double.isNaN(x)) return r(Double.NaN);
        final int k = (int) d(k0), l = knot(t, k, x);
        final double[] b = basis(t, k, l, x);
        double s = 0;
        for (int i = 0; i <= k; i++) s += b[i] * c[l - k + i];
        return r(s);
    }
    /** Product spline of degrees kx, ky; x and y are brought into the knots' range first. */
    @TLAPlusOperator(identifier = "BSpl2", module = "R64", warn = false)
    public static Value bspl2(final Value tck, final Value x0, final Value y0) {
        final Value[] q = elems(tck);
        if (q == null || q.length != 5) return r(Double.NaN);
        final double[] t = arr(q[0]), u = arr(q[1]), c = arr(q[2]);
        final int kx = (int) d(q[3]), ky = (int) d(q[4]);
        double x = d(x0), y = d(y0);
        if (t == null || u == null || c == null || Double.isNaN(x) || Double.isNaN(y)) return r(Double.NaN);
        x = Math.min(Math.max(x, t[kx]), t[t.length - kx - 1]);
        y = Math.min(Math.max(y, u[ky]), u[u.length - ky - 1]);
        final int l = knot(t, kx, x), m = knot(u, ky, y), ny = u.length - ky - 1;
        final double[] b = basis(t, kx, l, x), e = basis(u, ky, m, y);
        double s = 0;
        for (int i = 0; i <= kx; i++) for (int j = 0; j <= ky; j++) s += b[i] * e[j] * c[(l - kx + i) * ny + m - ky + j];
        return r(s);
    }
    private static double ap(final Value f, final double x) {
        if (!(f instanceof FcnLambdaValue)) return Double.NaN;
        return d(((FcnLambdaValue) f).apply(new DVal(x), tlc2.tool.EvalControl.Clear));
    }
    @TLAPlusOperator(identifier = "Reals", module = "R64", warn = false)
    public static Value reals() { return RealsVal.THE; }
    /** Integral of f over [a, b] by tanh-sinh quadrature, good to about 1e-12 also for algebraic end-point singularities. */
    @TLAPlusOperator(identifier = "Quad", module = "R64", warn = false)
    public static Value quad(final Value f, final Value a0, final Value b0) {
        final double a = d(a0), c = d(b0);
        if (Double.isNaN(a) || Double.isNaN(c)) return r(Double.NaN);
        if (a == c) return r(0.0);
        final double m = 0.5 * (a + c), hw = 0.5 * (c - a), h = 1.0 / 16;
        double s = 0, w = 0;
        for (int k = -56; k <= 56; k++) {
            final double u = k * h, sh = 0.5 * Math.PI * Math.sinh(u), ch = Math.cosh(sh);
            final double wt = h * 0.5 * Math.PI * Math.cosh(u) / (ch * ch);
            final double x = Math.tanh(sh);
            // distance from the nearer end kept accurate
            final double y = 1.0 / (Math.exp(Math.abs(sh)) * ch);
            double p = x < 0 ? a + hw * y : c - hw * y;
            if (p == a || p == c) continue;
            final double g = ap(f, p) * wt;
            s += g;
        }
        return r(s * hw);
    }
    /** A zero of f in [a, b] by bisection to adjacent doubles; NaN unless f changes sign. */
    @TLAPlusOperator(identifier = "Zero", module = "R64", warn = false)
    public static Value zero(final Value f, final Value a0, final Value b0) {
        double a = d(a0), c = d(b0), fa = ap(f, a), fc = ap(f, c);
        if (fa == 0) return r(a);
        if (fc == 0) return r(c);
        if (!(fa * fc < 0) && !(Math.signum(fa) * Math.signum(fc) < 0)) return r(Double.NaN);
        for (int k = 0; k < 200; k++) {
            final double m = 0.5 * (a + c);
            if (m == a || m == c) break;
            final double fm = ap(f, m);
            if (fm == 0) return r(m);
            if (Math.signum(fm) == Math.signum(fa)) { a = m; fa = fm; } else c = m;
        }
        return r(0.5 * (a + c));
    }
    /** Index (from 1) of element v in sequence s by Same, 0 if there is none. */
    @TLAPlusOperator(identifier = "IndexOf", module = "R64", warn = false)
    public static Value indexOf(final Value s, final Value v) {
        final Value[] es = elems(s);
        if (es != null) for (int k = 0; k < es.length; k++) if (sm(es[k], v)) return IntValue.gen(k + 1);
        return IntValue.gen(0);
    }
    /** The sequence of the sums of the elements before each position, length Len(s)+1. */
    @TLAPlusOperator(identifier = "CumSum", module = "R64", warn = false)
    public static Value cumsum(final Value s) {
        final Value[] es = elems(s);
        if (es == null) return r(Double.NaN);
        final Value[] o = new Value[es.length + 1];
        double t = 0; o[0] = r(0);
        for (int k = 0; k < es.length; k++) { t += d(es[k]); o[k + 1] = r(t); }
        return new TupleValue(o);
    }
    /** Natural logarithm of the gamma function (Lanczos), for x > 0. */
    @TLAPlusOperator(identifier = "LnGamma", module = "R64", warn = false)
    public static Value lnGamma(final Value x) { return r(Special.lnGamma(d(x))); }
    @TLAPlusOperator(identifier = "IsNaN", module = "R64", warn = false)
    public static Value isNaN(final Value a) { return b(a instanceof DVal && Double.isNaN(((DVal) a).d)); }
    @TLAPlusOperator(identifier = "Str", module = "R64", warn = false)
    public static Value str(final Value a) { return a instanceof StringValue ? a : new StringValue(a.toString()); }
}
