package vf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Java side of module Q: exact rational arithmetic. A value that is not a finite number yields the string "!nan". */
public final class QImpl {
    private static final StringValue BAD = new StringValue("!nan");
    private static final MathContext MC = new MathContext(80, RoundingMode.HALF_EVEN);

    static QVal q(final Value v) {
        if (v instanceof QVal) return (QVal) v;
        if (v instanceof IntValue) return QVal.of((long) ((IntValue) v).val);
        if (v instanceof DVal) {
            final double x = ((DVal) v).d;
            if (Double.isNaN(x) || Double.isInfinite(x)) return null;
            return QVal.of(x);
        }
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).val.toString();
            try {
                final int k = s.indexOf('/');
                if (k > 0) return new QVal(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
                return QVal.of(new BigDecimal(s));
            } catch (NumberFormatException e) { return null; }
        }
        return null;
    }
    private static Value w(final QVal x) { return x == null ? BAD : x; }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static BigDecimal bd(final QVal x) { return new BigDecimal(x.n).divide(new BigDecimal(x.m), MC); }

    @TLAPlusOperator(identifier = "Q", module = "Q", warn = false)
    public static Value lit(final Value a) { return w(q(a)); }
    @TLAPlusOperator(identifier = "QIs", module = "Q", warn = false)
    public static Value is(final Value a) { return b(q(a) != null); }
    @TLAPlusOperator(identifier = "QAdd", module = "Q", warn = false)
    public static Value add(final Value a, final Value c) {
        final QVal x = q(a), y = q(c); if (x == null || y == null) return BAD;
        return new QVal(x.n.multiply(y.m).add(y.n.multiply(x.m)), x.m.multiply(y.m));
    }
    @TLAPlusOperator(identifier = "QSub", module = "Q", warn = false)
    public static Value sub(final Value a, final Value c) {
        final QVal x = q(a), y = q(c); if (x == null || y == null) return BAD;
        return new QVal(x.n.multiply(y.m).subtract(y.n.multiply(x.m)), x.m.multiply(y.m));
    }
    @TLAPlusOperator(identifier = "QMul", module = "Q", warn = false)
    public static Value mul(final Value a, final Value c) {
        final QVal x = q(a), y = q(c); if (x == null || y == null) return BAD;
        return new QVal(x.n.multiply(y.n), x.m.multiply(y.m));
    }
    @TLAPlusOperator(identifier = "QDiv", module = "Q", warn = false)
    public static Value div(final Value a, final Value c) {
        final QVal x = q(a), y = q(c); if (x == null || y == null || y.n.signum() == 0) return BAD;
        return new QVal(x.n.multiply(y.m), x.m.multiply(y.n));
    }
    @TLAPlusOperator(identifier = "QNeg", module = "Q", warn = false)
    public static Value neg(final Value a) { final QVal x = q(a); return x == null ? BAD : new QVal(x.n.negate(), x.m); }
    @TLAPlusOperator(identifier = "QAbs", module = "Q", warn = false)
    public static Value abs(final Value a) { final QVal x = q(a); return x == null ? BAD : new QVal(x.n.abs(), x.m); }
    @TLAPlusOperator(identifier = "QLt", module = "Q", warn = false)
    public static Value lt(final Value a, final Value c) { final QVal x = q(a), y = q(c); return b(x != null && y != null && x.cmp(y) < 0); }
    @TLAPlusOperator(identifier = "QLe", module = "Q", warn = false)
    public static Value le(final Value a, final Value c) { final QVal x = q(a), y = q(c); return b(x != null && y != null && x.cmp(y) <= 0); }
    @TLAPlusOperator(identifier = "QEq", module = "Q", warn = false)
    public static Value eq(final Value a, final Value c) { final QVal x = q(a), y = q(c); return b(x != null && y != null && x.cmp(y) == 0); }
    @TLAPlusOperator(identifier = "QPow", module = "Q", warn = false)
    public static Value pow(final Value a, final Value k) {
        final QVal x = q(a);
        if (x == null || !(k instanceof IntValue)) return BAD;
        final int e = ((IntValue) k).val;
        if (e >= 0) return new QVal(x.n.pow(e), x.m.pow(e));
        if (x.n.signum() == 0) return BAD;
        return new QVal(x.m.pow(-e), x.n.pow(-e));
    }
    private static Value[] elems(final Value s) {
        final Value t = s.toTuple();
        return t instanceof TupleValue ? ((TupleValue) t).elems : null;
    }
    @TLAPlusOperator(identifier = "QSum", module = "Q", warn = false)
    public static Value sum(final Value s) {
        final Value[] es = elems(s);
        if (es == null) return BAD;
        Value t = QVal.of(0L);
        for (final Value e : es) { t = add(t, e); if (t == BAD) return BAD; }
        return t;
    }
    /** Polynomial with coefficients s (highest power first) at x, exactly. */
    @TLAPlusOperator(identifier = "QHorner", module = "Q", warn = false)
    public static Value horner(final Value s, final Value x) {
        final Value[] es = elems(s);
        if (es == null) return BAD;
        Value t = QVal.of(0L);
        for (final Value e : es) { t = add(mul(t, x), e); if (t == BAD) return BAD; }
        return t;
    }
    @TLAPlusOperator(identifier = "ToR", module = "Q", warn = false)
    public static Value toR(final Value a) { final QVal x = q(a); return new DVal(x == null ? Double.NaN : x.dbl()); }
    /** |a - c| <= rt * max(|a|, |c|) or |a - c| <= at, exactly. */
    @TLAPlusOperator(identifier = "QClose", module = "Q", warn = false)
    public static Value close(final Value a, final Value c, final Value rt, final Value at) {
        final QVal x = q(a), y = q(c), r = q(rt), t = q(at);
        if (x == null || y == null || r == null || t == null) return BoolValue.ValFalse;
        final QVal df = (QVal) abs(sub(x, y));
        final QVal ax = (QVal) abs(x), ay = (QVal) abs(y);
        final QVal mx = ax.cmp(ay) > 0 ? ax : ay;
        return b(df.cmp((QVal) mul(r, mx)) <= 0 || df.cmp(t) <= 0);
    }
    // 80-digit approximations of the irrational functions
    @TLAPlusOperator(identifier = "QSqrt", module = "Q", warn = false)
    public static Value sqrt(final Value a) { final QVal x = q(a); return x == null || x.n.signum() < 0 ? BAD : QVal.of(bd(x).sqrt(MC)); }
    @TLAPlusOperator(identifier = "QCbrt", module = "Q", warn = false)
    public static Value cbrt(final Value a) {
        final QVal x = q(a); if (x == null) return BAD;
        if (x.n.signum() == 0) return QVal.of(0L);
        final BigDecimal v = bd(x);
        BigDecimal y = new BigDecimal(Math.cbrt(v.doubleValue()));
        final BigDecimal three = BigDecimal.valueOf(3);
        for (int i = 0; i < 8; i++) y = y.subtract(y.multiply(y, MC).multiply(y, MC).subtract(v, MC).divide(three.multiply(y, MC).multiply(y, MC), MC), MC);
        return QVal.of(y);
    }
    static BigDecimal exp(final BigDecimal x) {
        int k = 0;
        BigDecimal z = x;
        while (z.abs().compareTo(new BigDecimal("0.01")) > 0) { z = z.divide(BigDecimal.valueOf(2), MC); k++; }
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int n = 1; n < 60; n++) { t = t.multiply(z, MC).divide(BigDecimal.valueOf(n), MC); s = s.add(t, MC); }
        for (int i = 0; i < k; i++) s = s.multiply(s, MC);
        return s;
    }
    @TLAPlusOperator(identifier = "QExp", module = "Q", warn = false)
    public static Value qexp(final Value a) { final QVal x = q(a); return x == null ? BAD : QVal.of(exp(bd(x))); }
    @TLAPlusOperator(identifier = "QLn", module = "Q", warn = false)
    public static Value qln(final Value a) {
        final QVal x = q(a); if (x == null || x.n.signum() <= 0) return BAD;
        final BigDecimal v = bd(x);
        BigDecimal y = new BigDecimal(Math.log(x.dbl()));
        for (int i = 0; i < 6; i++) { final BigDecimal e = exp(y); y = y.add(BigDecimal.valueOf(2).multiply(v.subtract(e, MC).divide(v.add(e, MC), MC), MC), MC); }
        return QVal.of(y);
    }
    /** -1, 0 or 1, or NaN where an operand is no number. */
    static double cmp(final Value a, final Value c) {
        final QVal x = q(a), y = q(c);
        return x == null || y == null ? Double.NaN : x.cmp(y);
    }
}
