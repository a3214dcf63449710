import tlc2.value.impl.*;
import util.UniqueString;

/** IEEE double back-end of module Num: a Num is the pair <<hi, lo>> of the bits of a double. */
public class Num {
    static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value n(double x) {
        if (x == 0.0) x = 0.0; // one zero
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value NRat(Value a, Value c) { return n((double) ((IntValue) a).val / ((IntValue) c).val); }
    public static Value NInt(Value a) { return n((double) ((IntValue) a).val); }
    public static Value NAdd(Value x, Value y) { return n(d(x) + d(y)); }
    public static Value NSub(Value x, Value y) { return n(d(x) - d(y)); }
    public static Value NMul(Value x, Value y) { return n(d(x) * d(y)); }
    public static Value NDiv(Value x, Value y) { return n(d(x) / d(y)); }
    public static Value NLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value NLeq(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value NEq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value NCeil(Value x) { return n(Math.ceil(d(x))); }
    public static Value NToInt(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
    public static Value NPow(Value x, Value y) { return n(Math.pow(d(x), d(y))); }
    public static Value NExp(Value x) { return n(Math.exp(d(x))); }
    public static Value NLn(Value x) { return n(Math.log(d(x))); }
    public static Value NSqrt(Value x) { return n(Math.sqrt(d(x))); }
    public static Value NSin(Value x) { return n(Math.sin(d(x))); }
    public static Value NCos(Value x) { return n(Math.cos(d(x))); }
    public static Value NAtan(Value x) { return n(Math.atan(d(x))); }
    public static Value NClose(Value x, Value y, Value rel, Value abs) {
        double a = d(x), c = d(y);
        if (Double.isNaN(a) || Double.isNaN(c)) return b(false);
        if (a == c) return b(true);
        return b(Math.abs(a - c) <= d(rel) * Math.max(Math.abs(a), Math.abs(c)) + d(abs));
    }
    public static Value NSame(Value x, Value y) {
        return b(Double.doubleToLongBits(d(x) + 0.0) == Double.doubleToLongBits(d(y) + 0.0));
    }
    public static Value NFinite(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
    public static Value NStr(Value x) { return new StringValue(Double.toString(d(x))); }
    public static Value NSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double r = 0.0;
        for (Value v : t.elems) r += d(v);
        return n(r);
    }
    public static Value NNeg(Value x) { return n(-d(x)); }
    public static Value NAbs(Value x) { return n(Math.abs(d(x))); }
    public static Value NMax(Value x, Value y) { return d(x) < d(y) ? y : x; }
    public static Value NMin(Value x, Value y) { return d(y) < d(x) ? y : x; }
    public static Value NIsZero(Value x) { return b(d(x) == 0.0); }
    public static Value NPos(Value x) { return b(d(x) > 0.0); }
}
