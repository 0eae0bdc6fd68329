package tlc2.module;

import java.io.*;
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** Java side of RowIO.tla: read and write rows of words and integers. */
public class RowIO {
    public static final long serialVersionUID = 1L;
    private static final Map<String, Value> cache = new HashMap<>();
    private static final Map<String, PrintWriter> out = new HashMap<>();

    static Value word(String w) {
        char c = w.charAt(0);
        if (c == '-' || Character.isDigit(c)) {
            boolean num = w.length() > (c == '-' ? 1 : 0);
            for (int i = 1; i < w.length() && num; i++) num = Character.isDigit(w.charAt(i));
            if (num)
                return w.length() <= 9 ? IntValue.gen(Integer.parseInt(w)) : Big.of(new BigInteger(w));
        }
        return new StringValue(w);
    }
    public static synchronized Value ReadRows(StringValue path) throws IOException {
        String p = path.val.toString();
        Value v = cache.get(p);
        if (v != null) return v;
        List<Value> rows = new ArrayList<>();
        try (BufferedReader in = new BufferedReader(new FileReader(p))) {
            String line;
            while ((line = in.readLine()) != null) {
                String[] f = line.trim().split(" ");
                Value[] e = new Value[f.length];
                for (int i = 0; i < f.length; i++) e[i] = word(f[i]);
                rows.add(new TupleValue(e));
            }
        }
        v = new TupleValue(rows.toArray(new Value[0]));
        cache.put(p, v);
        return v;
    }
    static void text(StringBuilder b, Value v) {
        if (v instanceof StringValue) b.append(((StringValue) v).val.toString());
        else if (v instanceof BoolValue) b.append(((BoolValue) v).val ? 1 : 0);
        else if (v instanceof IntValue || v instanceof Big) b.append(Big.get(v));
        else b.append(v.toString().replace(' ', '_'));
    }
    public static Value WriteRow(StringValue path, Value row) throws IOException {
        StringBuilder b = new StringBuilder();
        TupleValue t = (TupleValue) row.toTuple();
        for (int i = 0; i < t.elems.length; i++) {
            if (i > 0) b.append(' ');
            text(b, t.elems[i]);
        }
        String p = path.val.toString();
        synchronized (out) {
            PrintWriter w = out.get(p);
            if (w == null) {
                final PrintWriter n = new PrintWriter(new BufferedWriter(new FileWriter(p), 1 << 16));
                out.put(p, n);
                Runtime.getRuntime().addShutdownHook(new Thread(n::close));
                w = n;
            }
            w.println(b);
        }
        return BoolValue.ValTrue;
    }
    /* 64 pseudo-random bits of (seed, stream, i), SplitMix64 */
    public static Value Random64(Value seed, Value stream, Value i) {
        long z = Big.get(seed).longValue() * 0xD1342543DE82EF95L
            + Big.get(stream).longValue() * 0x2545F4914F6CDD1DL + Big.get(i).longValue();
        for (int k = 0; k < 2; k++) {
            z += 0x9E3779B97F4A7C15L;
            z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
            z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
            z ^= z >>> 31;
        }
        return Big.of(BigInteger.valueOf(z).and(BigInteger.ONE.shiftLeft(64).subtract(BigInteger.ONE)));
    }
}
