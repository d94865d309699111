import java.io.BufferedReader;
import java.io.File;
import java.io.FileReader;
import java.util.ArrayList;
import java.util.List;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * IEEE-754 double arithmetic for the module Real64. A number is the tuple
 * <<hi, lo>> of the two 32 bit halves of its bit pattern, so equality of
 * tuples is equality of bits.
 */
public class Real64 {
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val;
        long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }

    private static Value r(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }

    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value s) {
        if (s instanceof IntValue) return r(((IntValue) s).val);
        return r(Double.parseDouble(((StringValue) s).val.toString()));
    }
    public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
    public static Value RNeg(Value x) { return r(-d(x)); }
    public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
    public static Value RSqrt(Value x) { return r(Math.sqrt(d(x))); }
    public static Value RExp(Value x) { return r(StrictMath.exp(d(x))); }
    public static Value RLog(Value x) { return r(StrictMath.log(d(x))); }
    public static Value RLog1p(Value x) { return r(StrictMath.log1p(d(x))); }
    public static Value RLog10(Value x) { return r(StrictMath.log10(d(x))); }
    public static Value RPow(Value x, Value y) { return r(StrictMath.pow(d(x), d(y))); }
    public static Value RCos(Value x) { return r(StrictMath.cos(d(x))); }
    public static Value RSin(Value x) { return r(StrictMath.sin(d(x))); }
    public static Value RAtan2(Value y, Value x) { return r(StrictMath.atan2(d(y), d(x))); }
    public static Value RAtan(Value x) { return r(StrictMath.atan(d(x))); }
    public static Value RMin(Value x, Value y) { return r(Math.min(d(x), d(y))); }
    public static Value RMax(Value x, Value y) { return r(Math.max(d(x), d(y))); }
    public static Value RFloor(Value x) { return r(Math.floor(d(x))); }
    public static Value RTrunc(Value x) { double v = d(x); return r(v < 0 ? Math.ceil(v) : Math.floor(v)); }
    public static Value RUlp(Value x) { return r(Math.ulp(d(x))); }
    public static Value RToInt(Value x) { return IntValue.gen((int) d(x)); }
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value RFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }

    /** |x-y| <= rel*max(|x|,|y|) + abs, false for NaN, equal infinities are close */
    public static Value RClose(Value x, Value y, Value rel, Value abs) {
        double u = d(x), v = d(y);
        if (u == v) return b(true);
        if (Double.isInfinite(u) || Double.isInfinite(v)) return b(false);
        return b(Math.abs(u - v) <= d(rel) * Math.max(Math.abs(u), Math.abs(v)) + d(abs));
    }

    public static Value RStr(Value x) {
        return new StringValue(Double.toString(d(x)));
    }

    /** sum of a sequence, from the first to the last element */
    public static Value RSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double sum = 0;
        for (Value v : t.elems) sum += d(v);
        return r(sum);
    }

    /** whitespace separated decimal numbers, one row per line, # starts a comment */
    public static Value RTable(Value path) {
        String p = ((StringValue) path).val.toString();
        File f = new File(p);
        if (!f.isAbsolute()) f = new File(System.getProperty("real64.data", "."), p);
        List<Value> rows = new ArrayList<>();
        try (BufferedReader br = new BufferedReader(new FileReader(f))) {
            String l;
            while ((l = br.readLine()) != null) {
                int h = l.indexOf('#');
                if (h >= 0) l = l.substring(0, h);
                l = l.trim();
                if (l.isEmpty()) continue;
                String[] w = l.split("\\s+");
                Value[] row = new Value[w.length];
                for (int i = 0; i < w.length; i++) row[i] = r(Double.parseDouble(w[i]));
                rows.add(new TupleValue(row));
            }
        } catch (java.io.IOException e) {
            throw new RuntimeException(e);
        }
        return new TupleValue(rows.toArray(new Value[0]));
    }
}
