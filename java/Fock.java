import java.math.BigInteger;
import java.util.BitSet;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.value.impl.*;

/** Overrides operators of Fock.tla for speed only; OverrideTest.tla compares both on the same inputs. */
public class Fock {
    private static BitSet bits(final Value s) {
        final BitSet b = new BitSet();
        final SetEnumValue e = (SetEnumValue) s.toSetEnum();
        for (int i = 0; i < e.elems.size(); i++) b.set(((IntValue) e.elems.elementAt(i)).val);
        return b;
    }

    private static Value set(final BitSet b) {
        final Value[] e = new Value[b.cardinality()];
        int k = 0;
        for (int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) e[k++] = IntValue.gen(i);
        return new SetEnumValue(e, true);
    }

    private static final class Term {
        int[] orb;
        boolean[] create;
        BigInteger[] v;
    }

    private static Term[] terms(final Value op) {
        final Value[] e = ((TupleValue) op.toTuple()).elems;
        final Term[] out = new Term[e.length];
        for (int k = 0; k < e.length; k++) {
            final RecordValue r = (RecordValue) e[k].toRcd();
            final Term t = new Term();
            Value steps = null;
            for (int f = 0; f < r.names.length; f++) {
                if (r.names[f].toString().equals("t")) steps = r.values[f];
                else if (r.names[f].toString().equals("v")) t.v = Fx.cx(r.values[f]);
            }
            final Value[] st = ((TupleValue) steps.toTuple()).elems;
            t.orb = new int[st.length];
            t.create = new boolean[st.length];
            for (int j = 0; j < st.length; j++) {
                final Value[] x = ((TupleValue) st[j].toTuple()).elems;
                t.orb[j] = ((IntValue) x[0]).val;
                t.create[j] = ((StringValue) x[1]).val.toString().equals("c");
            }
            out[k] = t;
        }
        return out;
    }

    /** the term on a copy of s: 0 when blocked, else the sign; s is changed */
    private static int act(final Term t, final BitSet s) {
        int sign = 1;
        for (int k = t.orb.length - 1; k >= 0; k--) {
            final int i = t.orb[k];
            if (s.get(i) == t.create[k]) return 0;
            if (s.get(0, i).cardinality() % 2 == 1) sign = -sign;
            s.flip(i);
        }
        return sign;
    }

    private static void on(final Term[] op, final int from, final BitSet s, final BigInteger[] amp, final Map<BitSet, BigInteger[]> acc) {
        for (int k = from; k < op.length; k++) {
            final BitSet x = (BitSet) s.clone();
            final int sign = act(op[k], x);
            if (sign == 0) continue;
            final BigInteger[] v = op[k].v;
            BigInteger re = Fx.mul(amp[0], v[0]).subtract(Fx.mul(amp[1], v[1])), im = Fx.mul(amp[0], v[1]).add(Fx.mul(amp[1], v[0]));
            if (sign < 0) { re = re.negate(); im = im.negate(); }
            final BigInteger[] old = acc.get(x);
            acc.put(x, old == null ? new BigInteger[] { re, im } : new BigInteger[] { old[0].add(re), old[1].add(im) });
        }
    }

    private static Map<BitSet, BigInteger[]> state(final Value psi) {
        final FcnRcdValue f = (FcnRcdValue) psi.toFcnRcd();
        final Map<BitSet, BigInteger[]> m = new LinkedHashMap<>();
        final Value[] dom = f.getDomainAsValues();
        for (int k = 0; k < dom.length; k++) m.put(bits(dom[k]), Fx.cx(f.values[k]));
        return m;
    }

    private static Value of(final Map<BitSet, BigInteger[]> m) {
        final Value[] d = new Value[m.size()], v = new Value[m.size()];
        int k = 0;
        for (final Map.Entry<BitSet, BigInteger[]> e : m.entrySet()) {
            d[k] = set(e.getKey());
            v[k++] = Fx.cx(e.getValue()[0], e.getValue()[1]);
        }
        return new FcnRcdValue(d, v, false).normalize();
    }

    public static Value OpOnPS(final Value op, final IntValue k, final Value s, final Value amp, final Value acc) {
        final Map<BitSet, BigInteger[]> m = state(acc);
        on(terms(op), k.val - 1, bits(s), Fx.cx(amp), m);
        return of(m);
    }

    public static Value ApplyOp(final Value op, final Value psi) {
        final Map<BitSet, BigInteger[]> m = new LinkedHashMap<>();
        final Term[] t = terms(op);
        for (final Map.Entry<BitSet, BigInteger[]> e : state(psi).entrySet()) on(t, 0, e.getKey(), e.getValue(), m);
        return of(m);
    }

    public static Value Inner(final Value a, final Value b) {
        final Map<BitSet, BigInteger[]> y = state(b);
        BigInteger re = BigInteger.ZERO, im = BigInteger.ZERO;
        for (final Map.Entry<BitSet, BigInteger[]> e : state(a).entrySet()) {
            final BigInteger[] q = y.get(e.getKey());
            if (q == null) continue;
            final BigInteger[] p = e.getValue();
            final BigInteger pi = p[1].negate();
            re = re.add(Fx.mul(p[0], q[0]).subtract(Fx.mul(pi, q[1])));
            im = im.add(Fx.mul(p[0], q[1]).add(Fx.mul(pi, q[0])));
        }
        return Fx.cx(re, im);
    }
}
