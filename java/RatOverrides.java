import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides of module Rat (see spec/Rat.tla, meaning in spec/RatPure.tla). */
public final class RatOverrides implements tlc2.overrides.ITLCOverrides {
    @Override public Class[] get() { return new Class[] { RatOverrides.class }; }

    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;
    static final BigInteger IMIN = BigInteger.valueOf(Integer.MIN_VALUE), IMAX = BigInteger.valueOf(Integer.MAX_VALUE);

    /** working pair, not necessarily reduced */
    static final class R {
        final BigInteger n, d;
        R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }
    static R get(Value v) {
        if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), ONE);
        if (v instanceof RatValue) return new R(((RatValue) v).n, ((RatValue) v).d);
        throw new RuntimeException("not a rational: " + v);
    }
    static Value mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("division by zero in Rat");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return IntValue.gen(0);
        if (!d.equals(ONE)) {
            int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
            if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
            if (d.bitCount() > 1) {
                BigInteger g = n.gcd(d);
                if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            }
        }
        if (d.equals(ONE) && n.bitLength() < 32) return IntValue.gen(n.intValue());
        return new RatValue(n, d);
    }
    static Value mk(R r) { return mk(r.n, r.d); }

    static R add(R a, R b) {
        if (a.d.equals(b.d)) return new R(a.n.add(b.n), a.d);
        if (a.n.signum() == 0) return b;
        if (b.n.signum() == 0) return a;
        // common case: both denominators powers of two
        if (a.d.bitCount() == 1 && b.d.bitCount() == 1) {
            int ea = a.d.bitLength() - 1, eb = b.d.bitLength() - 1;
            if (ea < eb) return new R(a.n.shiftLeft(eb - ea).add(b.n), b.d);
            return new R(a.n.add(b.n.shiftLeft(ea - eb)), a.d);
        }
        return new R(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static R mul(R a, R b) {
        if (a.n.signum() == 0) return a;
        if (b.n.signum() == 0) return b;
        return new R(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static R neg(R a) { return new R(a.n.negate(), a.d); }
    static int cmp(R a, R b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        Value[] e = ((TupleValue) t).elems;
        return e;
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value a, Value b) { return mk(add(get(a), get(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value a, Value b) { return mk(add(get(a), neg(get(b)))); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value a, Value b) { return mk(mul(get(a), get(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value a, Value b) {
        R x = get(a), y = get(b);
        return mk(x.n.multiply(y.d), x.d.multiply(y.n));
    }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(Value a) { return mk(neg(get(a))); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(Value a) { R x = get(a); return mk(x.n.abs(), x.d); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(Value a, Value b) { return bool(cmp(get(a), get(b)) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value RLe(Value a, Value b) { return bool(cmp(get(a), get(b)) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value REq(Value a, Value b) { return bool(cmp(get(a), get(b)) == 0); }
    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value RMax(Value a, Value b) { return cmp(get(a), get(b)) < 0 ? b : a; }
    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value RPow(Value a, Value kv) {
        R x = get(a); int k = ((IntValue) kv).val;
        return k >= 0 ? mk(x.n.pow(k), x.d.pow(k)) : mk(x.d.pow(-k), x.n.pow(-k));
    }
    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value RFrac(Value a, Value b) { return RDiv(a, b); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(Value a) {
        R x = get(a);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        return mk(qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0], ONE);
    }
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value RSum(Value s) {
        R acc = new R(ZERO, ONE);
        for (Value v : seq(s)) acc = add(acc, get(v));
        return mk(acc);
    }
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value RDot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        R acc = new R(ZERO, ONE);
        for (int i = 0; i < a.length; i++) acc = add(acc, mul(get(a[i]), get(b[i])));
        return mk(acc);
    }
    @TLAPlusOperator(identifier = "RNorm1", module = "Rat", warn = false)
    public static Value RNorm1(Value s) {
        R acc = new R(ZERO, ONE);
        for (Value v : seq(s)) { R x = get(v); acc = add(acc, new R(x.n.abs(), x.d)); }
        return mk(acc);
    }
    @TLAPlusOperator(identifier = "RAxpy", module = "Rat", warn = false)
    public static Value RAxpy(Value a, Value s, Value b, Value t) {
        Value[] x = seq(s), y = seq(t); R ra = get(a), rb = get(b);
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = mk(add(mul(ra, get(x[i])), mul(rb, get(y[i]))));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "RClose", module = "Rat", warn = false)
    public static Value RClose(Value a, Value b, Value kv, Value scale) {
        R dlt = add(get(a), neg(get(b))); int k = ((IntValue) kv).val; R s = get(scale);
        R bound = k >= 0 ? new R(s.n, s.d.shiftLeft(k)) : new R(s.n.shiftLeft(-k), s.d);
        return bool(cmp(new R(dlt.n.abs(), dlt.d), bound) <= 0);
    }
    @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
    public static Value RIsNum(Value a) { return bool(a instanceof IntValue || a instanceof RatValue); }
    @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
    public static Value RToInt(Value a) {
        if (a instanceof IntValue) return a;
        throw new RuntimeException("RToInt: not a 32-bit integer: " + a);
    }
    @TLAPlusOperator(identifier = "RToStr", module = "Rat", warn = false)
    public static Value RToStr(Value a) {
        return new StringValue(a instanceof RatValue ? ((RatValue) a).text() : a.toString());
    }

    private static final ConcurrentHashMap<UniqueString, Value> cache = new ConcurrentHashMap<>();
    @TLAPlusOperator(identifier = "RParse", module = "Rat", warn = false)
    public static Value RParse(Value s) {
        if (s instanceof IntValue || s instanceof RatValue) return s;
        UniqueString u = ((StringValue) s).val;
        Value v = cache.get(u);
        if (v == null) {
            v = parse(u.toString(), s);
            if (cache.size() > 2000000) cache.clear();
            cache.put(u, v);
        }
        return v;
    }
    static Value parse(String t, Value orig) {
        if (t.equals("nan") || t.equals("-nan")) return new StringValue("nan");
        if (t.equals("inf") || t.equals("-inf")) return orig;
        boolean neg = false; int p = 0;
        if (t.startsWith("-")) { neg = true; p = 1; } else if (t.startsWith("+")) p = 1;
        BigInteger n, d = ONE;
        if (t.startsWith("0x", p)) {
            int pe = t.indexOf('p'); int e = 0;
            String m = pe < 0 ? t.substring(p + 2) : t.substring(p + 2, pe);
            if (pe >= 0) e = Integer.parseInt(t.substring(pe + 1).replace("+", ""));
            int dot = m.indexOf('.');
            if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
            n = new BigInteger(m, 16);
            if (e >= 0) n = n.shiftLeft(e); else d = ONE.shiftLeft(-e);
        } else {
            int sl = t.indexOf('/');
            if (sl >= 0) { n = new BigInteger(t.substring(p, sl)); d = new BigInteger(t.substring(sl + 1)); }
            else {
                BigDecimal bd = new BigDecimal(t.substring(p));
                n = bd.unscaledValue();
                if (bd.scale() > 0) d = BigInteger.TEN.pow(bd.scale()); else n = n.multiply(BigInteger.TEN.pow(-bd.scale()));
            }
        }
        return mk(neg ? n.negate() : n, d);
    }
    static String approx(BigInteger n, BigInteger d) {
        return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(17)).toString();
    }
}
