import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;

/** Overrides the operators of BigInt.tla marked (J) with java.math.BigInteger. */
public class BigInt {
    private static final BigInteger BASE = BigInteger.valueOf(10000);
    private static final long B8 = 100000000L;

    static BigInteger of(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final Value[] e = t.elems;
        final int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        BigInteger r;
        final int n = e.length - 1;
        if (n <= 4) {
            long x = 0;
            for (int i = n; i >= 1; i--) x = x * 10000 + ((IntValue) e[i]).val;
            r = BigInteger.valueOf(x);
        } else {
            final StringBuilder sb = new StringBuilder(4 * n);
            for (int i = n; i >= 1; i--) {
                final int d = ((IntValue) e[i]).val;
                sb.append((char) ('0' + d / 1000)).append((char) ('0' + d / 100 % 10))
                  .append((char) ('0' + d / 10 % 10)).append((char) ('0' + d % 10));
            }
            r = new BigInteger(sb.toString());
        }
        return s < 0 ? r.negate() : r;
    }

    static Value to(final BigInteger b) {
        final int s = b.signum();
        if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
        final String str = b.abs().toString();
        final int n = (str.length() + 3) / 4;
        final Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        int end = str.length();
        for (int i = 1; i <= n; i++) {
            final int beg = Math.max(0, end - 4);
            int d = 0;
            for (int k = beg; k < end; k++) d = d * 10 + (str.charAt(k) - '0');
            e[i] = IntValue.gen(d);
            end = beg;
        }
        return new TupleValue(e);
    }

    public static Value BInt(final IntValue n) { return to(BigInteger.valueOf(n.val)); }
    public static Value BToInt(final Value a) { return IntValue.gen(of(a).intValueExact()); }
    public static Value BNeg(final Value a) { return to(of(a).negate()); }
    public static Value BAbs(final Value a) { return to(of(a).abs()); }
    public static Value BCmp(final Value a, final Value b) { return IntValue.gen(of(a).compareTo(of(b))); }
    public static Value BAdd(final Value a, final Value b) { return to(of(a).add(of(b))); }
    public static Value BSub(final Value a, final Value b) { return to(of(a).subtract(of(b))); }
    public static Value BMul(final Value a, final Value b) { return to(of(a).multiply(of(b))); }
    public static Value BDiv(final Value a, final Value b) { return to(of(a).divide(of(b))); }
    public static Value BMod(final Value a, final Value b) { return to(of(a).remainder(of(b))); }
    static BigInteger mulDiv(final BigInteger a, final BigInteger b, final BigInteger d) {
        final BigInteger p = a.multiply(b);
        final BigInteger q = p.abs().shiftLeft(1).add(d).divide(d.shiftLeft(1));
        return p.signum() < 0 ? q.negate() : q;
    }
    public static Value BMulDiv(final Value a, final Value b, final Value c) { return to(mulDiv(of(a), of(b), of(c))); }
    public static Value BGcd(final Value a, final Value b) { return to(of(a).gcd(of(b))); }
    public static Value BSqrt(final Value a) { return to(of(a).sqrt()); }
    public static Value BPow(final Value a, final IntValue n) { return to(of(a).pow(n.val)); }
}
