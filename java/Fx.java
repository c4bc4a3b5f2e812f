import java.math.BigInteger;
import tlc2.value.impl.*;

/** Overrides operators of Fx.tla for speed only; OverrideTest.tla compares both on the same inputs. */
public class Fx {
    static final BigInteger S = BigInteger.TEN.pow(20);

    static BigInteger mul(final BigInteger a, final BigInteger b) { return BigInt.mulDiv(a, b, S); }

    static Value cx(final BigInteger re, final BigInteger im) { return new TupleValue(new Value[] { BigInt.to(re), BigInt.to(im) }); }

    static BigInteger[] cx(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        return new BigInteger[] { BigInt.of(e[0]), BigInt.of(e[1]) };
    }

    public static Value FxSum(final Value s) {
        BigInteger r = BigInteger.ZERO;
        for (final Value v : ((TupleValue) s.toTuple()).elems) r = r.add(BigInt.of(v));
        return BigInt.to(r);
    }

    public static Value CxSum(final Value s) {
        BigInteger re = BigInteger.ZERO, im = BigInteger.ZERO;
        for (final Value v : ((TupleValue) s.toTuple()).elems) {
            final BigInteger[] c = cx(v);
            re = re.add(c[0]);
            im = im.add(c[1]);
        }
        return cx(re, im);
    }

    public static Value CxMul(final Value a, final Value b) {
        final BigInteger[] x = cx(a), y = cx(b);
        return cx(mul(x[0], y[0]).subtract(mul(x[1], y[1])), mul(x[0], y[1]).add(mul(x[1], y[0])));
    }

    public static Value CxAdd(final Value a, final Value b) {
        final BigInteger[] x = cx(a), y = cx(b);
        return cx(x[0].add(y[0]), x[1].add(y[1]));
    }
}
