import java.math.BigInteger;
import tlc2.value.impl.*;

/** Exact rational back-end of module Num with unbounded integers: a Num is the string "n/d". */
public class Num {
    static final BigInteger ONE = BigInteger.ONE;
    static BigInteger[] q(Value v) {
        String s = ((StringValue) v).val.toString();
        int k = s.indexOf('/');
        return new BigInteger[] {new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1))};
    }
    static Value mk(BigInteger a, BigInteger c) {
        if (c.signum() == 0) throw new RuntimeException("Num: division by zero");
        if (c.signum() < 0) { a = a.negate(); c = c.negate(); }
        BigInteger g = a.gcd(c);
        return new StringValue(a.divide(g) + "/" + c.divide(g));
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int cmp(Value x, Value y) {
        BigInteger[] a = q(x), c = q(y);
        return a[0].multiply(c[1]).compareTo(c[0].multiply(a[1]));
    }
    public static Value NRat(Value a, Value c) {
        return mk(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) c).val));
    }
    public static Value NInt(Value a) { return mk(BigInteger.valueOf(((IntValue) a).val), ONE); }
    public static Value NAdd(Value x, Value y) {
        BigInteger[] a = q(x), c = q(y);
        return mk(a[0].multiply(c[1]).add(c[0].multiply(a[1])), a[1].multiply(c[1]));
    }
    public static Value NSub(Value x, Value y) {
        BigInteger[] a = q(x), c = q(y);
        return mk(a[0].multiply(c[1]).subtract(c[0].multiply(a[1])), a[1].multiply(c[1]));
    }
    public static Value NMul(Value x, Value y) {
        BigInteger[] a = q(x), c = q(y);
        return mk(a[0].multiply(c[0]), a[1].multiply(c[1]));
    }
    public static Value NDiv(Value x, Value y) {
        BigInteger[] a = q(x), c = q(y);
        return mk(a[0].multiply(c[1]), a[1].multiply(c[0]));
    }
    public static Value NLt(Value x, Value y) { return b(cmp(x, y) < 0); }
    public static Value NLeq(Value x, Value y) { return b(cmp(x, y) <= 0); }
    public static Value NEq(Value x, Value y) { return b(cmp(x, y) == 0); }
    public static Value NCeil(Value x) {
        BigInteger[] a = q(x);
        BigInteger[] r = a[0].divideAndRemainder(a[1]);
        return mk(r[1].signum() > 0 ? r[0].add(ONE) : r[0], ONE);
    }
    public static Value NToInt(Value x) {
        BigInteger[] a = q(x);
        BigInteger[] r = a[0].divideAndRemainder(a[1]);
        return IntValue.gen((r[1].signum() < 0 ? r[0].subtract(ONE) : r[0]).intValueExact());
    }
    public static Value NPow(Value x, Value y) {
        BigInteger[] p = q(y);
        if (!p[1].equals(ONE)) throw new RuntimeException("NPow: not rational");
        int e = p[0].intValueExact();
        BigInteger[] a = q(x);
        return e >= 0 ? mk(a[0].pow(e), a[1].pow(e)) : mk(a[1].pow(-e), a[0].pow(-e));
    }
    public static Value NClose(Value x, Value y, Value rel, Value abs) { return b(cmp(x, y) == 0); }
    public static Value NSame(Value x, Value y) { return b(cmp(x, y) == 0); }
    public static Value NStr(Value x) { return x; }
    public static Value NSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigInteger n = BigInteger.ZERO, d = ONE;
        for (Value v : t.elems) {
            BigInteger[] a = q(v);
            n = n.multiply(a[1]).add(a[0].multiply(d));
            d = d.multiply(a[1]);
        }
        return mk(n, d);
    }
}
