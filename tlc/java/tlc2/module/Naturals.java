package tlc2.module;

import tlc2.value.IBoolValue;
import tlc2.value.ValueConstants;
import tlc2.value.impl.*;

/** Replaces TLC's 32-bit Naturals by unbounded integers; see Big. */
public class Naturals extends UserObj implements ValueConstants {
    private static final long serialVersionUID = 1L;
    private static final Value SetInt = new UserValue(new Naturals());
    static {
        String[][] names = {{"Plus", "+"}, {"Minus", "-"}, {"Times", "*"}, {"LT", "<"}, {"LE", "\\leq"}, {"GT", ">"}, {"GEQ", "\\geq"}, {"DotDot", ".."}, {"Divide", "\\div"}, {"Mod", "%"}, {"Expt", "^"}};
        for (String[] n : names) tlc2.tool.impl.TLARegistry.put(n[0], n[1]);
    }
    private final boolean nat = true;

    public static Value Nat() { return SetInt; }
    public static Value Plus(Value a, Value b) { return Big.plus(a, b); }
    public static Value Minus(Value a, Value b) { return Big.minus(a, b); }
    public static Value Times(Value a, Value b) { return Big.times(a, b); }
    public static IBoolValue LT(Value a, Value b) { return Big.cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static IBoolValue LE(Value a, Value b) { return Big.cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static IBoolValue GT(Value a, Value b) { return Big.cmp(a, b) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static IBoolValue GEQ(Value a, Value b) { return Big.cmp(a, b) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static IntervalValue DotDot(Value a, Value b) { return new IntervalValue(Big.small(a), Big.small(b)); }
    public static Value Divide(Value a, Value b) { return Big.divide(a, b); }
    public static Value Mod(Value a, Value b) { return Big.mod(a, b); }
    public static Value Expt(Value a, Value b) { return Big.expt(a, b); }

    public int compareTo(Value o) { return 0; }
    public boolean member(Value e) { return (e instanceof IntValue || e instanceof Big) && (!nat || Big.get(e).signum() >= 0); }
    public boolean isFinite() { return false; }
    public StringBuffer toString(StringBuffer sb, int o, boolean s) { return sb.append(nat ? "Nat" : "Int"); }
    public String getNonEnumerableErrorMsg(tla2sany.semantic.ExprNode n) { return "an infinite set of integers cannot be enumerated"; }
}
