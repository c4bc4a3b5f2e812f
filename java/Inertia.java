import java.math.BigInteger;
import tlc2.value.impl.*;

/** Overrides operators of Inertia.tla for speed only; OverrideTest.tla compares both on the same inputs. */
public class Inertia {
    private static BigInteger mul(final BigInteger a, final BigInteger b) { return Fx.mul(a, b); }
    private static BigInteger div(final BigInteger a, final BigInteger b) {
        return b.signum() < 0 ? BigInt.mulDiv(a.negate(), Fx.S, b.negate()) : BigInt.mulDiv(a, Fx.S, b);
    }
    private static BigInteger abs2(final BigInteger[] a) { return mul(a[0], a[0]).add(mul(a[1], a[1])); }
    private static BigInteger[] mul(final BigInteger[] x, final BigInteger[] y) {
        return new BigInteger[] { mul(x[0], y[0]).subtract(mul(x[1], y[1])), mul(x[0], y[1]).add(mul(x[1], y[0])) };
    }
    private static BigInteger[] sub(final BigInteger[] x, final BigInteger[] y) { return new BigInteger[] { x[0].subtract(y[0]), x[1].subtract(y[1]) }; }
    private static BigInteger[] add(final BigInteger[] x, final BigInteger[] y) { return new BigInteger[] { x[0].add(y[0]), x[1].add(y[1]) }; }
    private static BigInteger[] scale(final BigInteger[] x, final BigInteger f) { return new BigInteger[] { mul(x[0], f), mul(x[1], f) }; }
    private static BigInteger[] conj(final BigInteger[] x) { return new BigInteger[] { x[0], x[1].negate() }; }
    private static boolean zero(final BigInteger[] x) { return x[0].signum() == 0 && x[1].signum() == 0; }

    public static Value NegCount(final Value m) {
        final Value[] rows = ((TupleValue) m.toTuple()).elems;
        final int n = rows.length;
        final BigInteger[][][] a = new BigInteger[n][n][];
        for (int i = 0; i < n; i++) {
            final Value[] r = ((TupleValue) rows[i].toTuple()).elems;
            for (int j = 0; j < n; j++) a[i][j] = Fx.cx(r[j]);
        }
        final boolean[] in = new boolean[n];
        java.util.Arrays.fill(in, true);
        final BigInteger pico = Fx.S.divide(BigInteger.TEN.pow(12)), vanishing = mul(pico, pico);
        final BigInteger ratio = BigInt.mulDiv(BigInteger.valueOf(41), Fx.S, BigInteger.valueOf(100));
        final BigInteger one = Fx.S;
        int left = n, count = 0;
        while (left > 0) {
            int k = -1, p = -1, q = -1;
            BigInteger o2 = BigInteger.ZERO;
            for (int i = 0; i < n; i++) {
                if (!in[i]) continue;
                if (k < 0 || a[i][i][0].abs().compareTo(a[k][k][0].abs()) > 0) k = i;
                for (int j = i + 1; j < n; j++) {
                    if (!in[j]) continue;
                    final BigInteger w = zero(a[i][j]) ? BigInteger.ZERO : abs2(a[i][j]);
                    if (p < 0 || w.compareTo(o2) > 0) { p = i; q = j; o2 = w; }
                }
            }
            final BigInteger d2 = abs2(a[k][k]);
            if (d2.compareTo(vanishing) <= 0 && o2.compareTo(vanishing) <= 0) break;
            if (mul(ratio, o2).compareTo(d2) <= 0) {
                final BigInteger inv = div(one, a[k][k][0]);
                if (a[k][k][0].signum() < 0) count++;
                in[k] = false;
                left--;
                for (int i = 0; i < n; i++) {
                    if (!in[i]) continue;
                    final BigInteger[] f = scale(a[i][k], inv);
                    if (zero(f)) continue;
                    for (int j = 0; j < n; j++)
                        if (in[j] && !zero(a[k][j])) a[i][j] = sub(a[i][j], mul(f, a[k][j]));
                }
            } else {
                final BigInteger x = a[p][p][0], y = a[q][q][0];
                final BigInteger[] b = a[p][q];
                final BigInteger inv = div(one, mul(x, y).subtract(abs2(b)));
                in[p] = in[q] = false;
                left -= 2;
                count++;
                for (int i = 0; i < n; i++) {
                    if (!in[i]) continue;
                    final BigInteger[] u = scale(sub(scale(a[i][p], y), mul(a[i][q], conj(b))), inv);
                    final BigInteger[] v = scale(sub(scale(a[i][q], x), mul(a[i][p], b)), inv);
                    for (int j = 0; j < n; j++)
                        if (in[j]) a[i][j] = sub(a[i][j], add(mul(u, a[p][j]), mul(v, a[q][j])));
                }
            }
        }
        return IntValue.gen(count);
    }
}
