package vf;

import tlc2.value.ValueConstants;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** A TLC value holding one IEEE-754 binary64 number. */
public final class DVal extends Value implements ValueConstants {
    public final double d;

    public DVal(final double d) { this.d = d; }

    public byte getKind() { return USERVALUE; }
    public int compareTo(final Object o) {
        if (o instanceof DVal) return Double.compare(d, ((DVal) o).d);
        return 1;
    }
    public boolean equals(final Object o) { return o instanceof DVal && Double.compare(d, ((DVal) o).d) == 0; }
    public boolean member(final Value v) { return false; }
    public boolean isFinite() { return true; }
    public Value takeExcept(final ValueExcept ex) { return ex.idx < ex.path.length ? this : ex.value; }
    public Value takeExcept(final ValueExcept[] exs) { Value r = this; for (final ValueExcept ex : exs) r = r.takeExcept(ex); return r; }
    public int size() { return 1; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, USERVALUE), Double.doubleToLongBits(d)); }
    public IValue permute(final IMVPerm p) { return this; }
    public StringBuffer toString(final StringBuffer sb, final int off, final boolean sw) { return sb.append(Double.toString(d)); }
}
