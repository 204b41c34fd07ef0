package vf;

import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.ValueConstants;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** A TLC value holding one exact rational number (arbitrary precision). */
public final class QVal extends Value implements ValueConstants {
    public final BigInteger n, m;   // n/m, m > 0, lowest terms

    public QVal(BigInteger n, BigInteger m) {
        if (m.signum() < 0) { n = n.negate(); m = m.negate(); }
        final BigInteger g = n.gcd(m);
        if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); m = m.divide(g); }
        this.n = n; this.m = m;
    }
    public static QVal of(final long v) { return new QVal(BigInteger.valueOf(v), BigInteger.ONE); }
    public static QVal of(final double d) {
        final BigDecimal b = new BigDecimal(d);   // exact
        return of(b);
    }
    public static QVal of(final BigDecimal b) {
        if (b.scale() > 0) return new QVal(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
        return new QVal(b.toBigIntegerExact(), BigInteger.ONE);
    }
    public double dbl() {
        if (n.signum() == 0) return 0.0;
        return new BigDecimal(n).divide(new BigDecimal(m), new java.math.MathContext(40)).doubleValue();
    }
    public int cmp(final QVal o) { return n.multiply(o.m).compareTo(o.n.multiply(m)); }

    public byte getKind() { return USERVALUE; }
    public int compareTo(final Object o) {
        if (o instanceof QVal) return cmp((QVal) o);
        return 1;
    }
    public boolean equals(final Object o) { return o instanceof QVal && cmp((QVal) o) == 0; }
    public boolean member(final Value v) { return false; }
    public boolean isFinite() { return true; }
    public Value takeExcept(final ValueExcept ex) { return ex.idx < ex.path.length ? this : ex.value; }
    public Value takeExcept(final ValueExcept[] exs) { Value r = this; for (final ValueExcept ex : exs) r = r.takeExcept(ex); return r; }
    public int size() { return 1; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, USERVALUE), n.toString() + "/" + m.toString()); }
    public IValue permute(final IMVPerm p) { return this; }
    public StringBuffer toString(final StringBuffer sb, final int off, final boolean sw) { return sb.append(n).append('/').append(m); }
}
