package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.*;

/** Java evaluations of the operators of the same names in Ints.tla. */
public class Ints {
    public static final long serialVersionUID = 1L;
    public static Value BitLen(Value a) {
        if (a instanceof IntValue) {
            long x = Math.abs((long) ((IntValue) a).val);
            return IntValue.gen(64 - Long.numberOfLeadingZeros(x));
        }
        return IntValue.gen(Big.get(a).abs().bitLength());
    }
    public static Value ISqrt(Value a) { return Big.of(Big.get(a).sqrt()); }
    public static Value Abs(Value a) {
        if (a instanceof IntValue) return ((IntValue) a).val < 0 ? Big.neg(a) : a;
        return Big.get(a).signum() < 0 ? Big.neg(a) : a;
    }
    public static Value Min(Value a, Value b) { return Big.cmp(a, b) <= 0 ? a : b; }
    public static Value Max(Value a, Value b) { return Big.cmp(a, b) >= 0 ? a : b; }
    public static BoolValue Eq(Value a, Value b) { return Big.cmp(a, b) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value CDiv(Value a, Value b) { return Big.neg(Big.divide(Big.neg(a), b)); }
    public static Value ShF(Value a, Value k) {
        int s = Big.small(k);
        BigInteger x = Big.get(a);
        return Big.of(s >= 0 ? x.shiftLeft(s) : x.shiftRight(-s));
    }
    public static Value ShC(Value a, Value k) {
        int s = Big.small(k);
        BigInteger x = Big.get(a);
        return Big.of(s >= 0 ? x.shiftLeft(s) : x.negate().shiftRight(-s).negate());
    }
}
