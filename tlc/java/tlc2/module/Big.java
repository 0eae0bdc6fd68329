package tlc2.module;

import java.math.BigInteger;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.ValueConstants;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/**
 * An integer outside TLC's 32-bit range.  The Integers/Naturals modules of
 * this directory replace TLC's own: + - * \div % ^ and the comparisons then
 * mean what the TLA+ standard module Integers says they mean, for every
 * integer, instead of raising TLC's overflow error.  Values are normalised:
 * an integer that fits an int is always an IntValue.
 */
public final class Big extends Value implements ValueConstants {
    private static final long serialVersionUID = 1L;
    public final BigInteger v;

    private Big(BigInteger v) { this.v = v; }

    public static Value of(BigInteger x) {
        return x.bitLength() <= 31 ? IntValue.gen(x.intValue()) : new Big(x);
    }
    public static Value of(long x) {
        return x == (int) x ? IntValue.gen((int) x) : new Big(BigInteger.valueOf(x));
    }
    public static BigInteger get(Object a) {
        if (a instanceof IntValue) return BigInteger.valueOf(((IntValue) a).val);
        if (a instanceof Big) return ((Big) a).v;
        throw new RuntimeException("not an integer: " + a);
    }
    public static int small(Object a) {
        if (a instanceof IntValue) return ((IntValue) a).val;
        throw new RuntimeException("integer out of range for this use: " + a);
    }
    static int cmp(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue)
            return Integer.compare(((IntValue) a).val, ((IntValue) b).val);
        return get(a).compareTo(get(b));
    }
    static boolean pow2(BigInteger b) { return b.signum() > 0 && b.getLowestSetBit() == b.bitLength() - 1; }

    static Value plus(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue)
            return of((long) ((IntValue) a).val + ((IntValue) b).val);
        return of(get(a).add(get(b)));
    }
    static Value minus(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue)
            return of((long) ((IntValue) a).val - ((IntValue) b).val);
        return of(get(a).subtract(get(b)));
    }
    static Value times(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue)
            return of((long) ((IntValue) a).val * ((IntValue) b).val);
        BigInteger x = get(a), y = get(b);
        if (pow2(y)) return of(x.shiftLeft(y.bitLength() - 1));
        if (pow2(x)) return of(y.shiftLeft(x.bitLength() - 1));
        return of(x.multiply(y));
    }
    /* TLA+: for b > 0, a = b*(a \div b) + a % b and 0 <= a % b < b */
    static Value divide(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue) {
            int y = ((IntValue) b).val;
            if (y <= 0) throw new RuntimeException("\\div by non-positive " + y);
            return of(Math.floorDiv((long) ((IntValue) a).val, (long) y));
        }
        BigInteger x = get(a), y = get(b);
        if (y.signum() <= 0) throw new RuntimeException("\\div by non-positive " + y);
        if (pow2(y)) return of(x.shiftRight(y.bitLength() - 1));
        BigInteger[] qr = x.divideAndRemainder(y);
        return of(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }
    static Value mod(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue) {
            int y = ((IntValue) b).val;
            if (y <= 0) throw new RuntimeException("% by non-positive " + y);
            return of(Math.floorMod((long) ((IntValue) a).val, (long) y));
        }
        BigInteger y = get(b);
        if (y.signum() <= 0) throw new RuntimeException("% by non-positive " + y);
        return of(get(a).mod(y));
    }
    static Value neg(Value a) {
        if (a instanceof IntValue) return of(-(long) ((IntValue) a).val);
        return of(((Big) a).v.negate());
    }
    static Value expt(Value a, Value b) {
        int e = small(b);
        if (e < 0) throw new RuntimeException("negative exponent " + e);
        if (a instanceof IntValue && ((IntValue) a).val == 2)
            return e < 31 ? IntValue.gen(1 << e) : of(BigInteger.ONE.shiftLeft(e));
        return of(get(a).pow(e));
    }

    public byte getKind() { return INTVALUE; }
    public String getKindString() { return "an unbounded integer"; }
    public int compareTo(Object o) { return v.compareTo(get(o)); }
    public boolean equals(Object o) {
        if (o instanceof Big) return v.equals(((Big) o).v);
        if (o instanceof IntValue) return false;
        Assert.fail("Attempted to check equality of integer " + v + " with non-integer:\n" + o);
        return false;
    }
    public boolean member(Value e) { Assert.fail("element test in an integer"); return false; }
    public Value takeExcept(ValueExcept ex) { Assert.fail("EXCEPT on an integer"); return null; }
    public Value takeExcept(ValueExcept[] exs) { Assert.fail("EXCEPT on an integer"); return null; }
    public boolean isFinite() { Assert.fail("finiteness test of an integer"); return false; }
    public int size() { Assert.fail("size of an integer"); return 0; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean isAtom() { return true; }
    public boolean mutates() { return false; }
    public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, INTVALUE);
        byte[] b = v.toByteArray();
        for (byte x : b) fp = FP64.Extend(fp, x);
        return fp;
    }
    public IValue permute(IMVPerm perm) { return this; }
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(v.toString()); }
}
