package vf;

import tlc2.value.ValueConstants;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** The set of all numbers: domain of the functions handed to Quad and Zero. */
public final class RealsVal extends Value implements ValueConstants {
    public static final RealsVal THE = new RealsVal();

    public byte getKind() { return USERVALUE; }
    public int compareTo(final Object o) { return o == this ? 0 : 1; }
    public boolean equals(final Object o) { return o == this; }
    public boolean member(final Value v) { return v instanceof DVal || v instanceof IntValue || v instanceof QVal; }
    public boolean isFinite() { return false; }
    public Value takeExcept(final ValueExcept ex) { return ex.idx < ex.path.length ? this : ex.value; }
    public Value takeExcept(final ValueExcept[] exs) { Value r = this; for (final ValueExcept ex : exs) r = r.takeExcept(ex); return r; }
    public int size() { return Integer.MAX_VALUE; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, USERVALUE), "Reals"); }
    public IValue permute(final IMVPerm p) { return this; }
    public StringBuffer toString(final StringBuffer sb, final int off, final boolean sw) { return sb.append("Reals"); }
}
