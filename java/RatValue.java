import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

/** A rational that is not a 32-bit integer: an opaque TLC atom. */
public final class RatValue extends Value {
    final BigInteger n, d; // d > 0, coprime
    private long fp; private boolean hasFp;

    RatValue(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

    @Override public byte getKind() { return USERVALUE; }
    @Override public String getKindString() { return "a rational"; }
    @Override public int compareTo(Object o) {
        BigInteger on, od;
        if (o instanceof RatValue) { on = ((RatValue) o).n; od = ((RatValue) o).d; }
        else if (o instanceof IntValue) { on = BigInteger.valueOf(((IntValue) o).val); od = BigInteger.ONE; }
        else throw new RuntimeException("comparing a rational with " + o);
        return n.multiply(od).compareTo(on.multiply(d));
    }
    @Override public boolean equals(Object o) {
        return o instanceof RatValue && ((RatValue) o).n.equals(n) && ((RatValue) o).d.equals(d);
    }
    @Override public boolean member(Value v) { throw new RuntimeException("membership in a rational"); }
    @Override public Value takeExcept(ValueExcept e) { if (e.idx >= e.path.length) return e.value; throw new RuntimeException("EXCEPT on a rational"); }
    @Override public Value takeExcept(ValueExcept[] e) { Value v = this; for (ValueExcept x : e) v = v.takeExcept(x); return v; }
    @Override public Value normalize() { return this; }
    @Override public boolean isNormalized() { return true; }
    @Override public boolean isFinite() { return true; }
    @Override public int size() { return 1; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void deepNormalize() { }
    @Override public boolean mutates() { return false; }
    @Override public long fingerPrint(long f) {
        if (!hasFp) {
            long h = FP64.New();
            h = FP64.Extend(h, n.toByteArray(), 0, n.toByteArray().length);
            h = FP64.Extend(h, 47);
            h = FP64.Extend(h, d.toByteArray(), 0, d.toByteArray().length);
            fp = h; hasFp = true;
        }
        return FP64.Extend(f, fp);
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public void write(IValueOutputStream s) { throw new RuntimeException("rationals cannot be written to disk"); }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        return sb.append(text());
    }
    String text() {
        if (d.equals(BigInteger.ONE) && n.bitLength() < 128) return n.toString();
        if (n.bitLength() < 40 && d.bitLength() < 40) return n + "/" + d;
        return RatOverrides.approx(n, d);
    }
}
