/* TLC overrides for the operators of spec/BigFloat.tla: same values, computed with java.math.BigInteger. */
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class BigFloat implements ITLCOverrides {
    static final int PREC = 128, W = 12, GAP = 2 * PREC + 64;

    @Override
    public Class[] get() { return new Class[] { BigFloat.class }; }

    static int[] ints(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int[] r = new int[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
        return r;
    }
    static BigInteger mant(int[] x) {
        int n = x.length - 2;
        if (n <= 0) return BigInteger.ZERO;
        byte[] b = new byte[(n * W) / 8 + 2];
        int bits = 0; long acc = 0; int pos = b.length - 1;
        for (int i = 2; i < x.length; i++) {
            acc |= ((long) x[i]) << bits; bits += W;
            while (bits >= 8) { b[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        if (bits > 0) b[pos--] = (byte) acc;
        return new BigInteger(1, b);
    }
    static final TupleValue ZERO = new TupleValue(new Value[] { IntValue.gen(0), IntValue.gen(0) });
    static Value norm(int s, int e, BigInteger m) {
        if (m.signum() == 0) return ZERO;
        int k = m.bitLength() - PREC;
        if (k > 0) { m = m.shiftRight(k); e += k; }
        int n = (m.bitLength() + W - 1) / W;
        Value[] v = new Value[n + 2];
        v[0] = IntValue.gen(s); v[1] = IntValue.gen(e);
        byte[] b = m.toByteArray();
        int pos = b.length - 1, bits = 0; long acc = 0;
        for (int i = 0; i < n; i++) {
            while (bits < W) { acc |= (pos >= 0 ? (long) (b[pos--] & 0xff) : 0L) << bits; bits += 8; }
            v[i + 2] = IntValue.gen((int) (acc & ((1 << W) - 1))); acc >>>= W; bits -= W;
        }
        return new TupleValue(v);
    }
    @TLAPlusOperator(identifier = "Add", module = "BigFloat", warn = false)
    public static Value Add(Value a, Value b) {
        int[] x = ints(a), y = ints(b);
        if (x[0] == 0) return b;
        if (y[0] == 0) return a;
        BigInteger mx = mant(x), my = mant(y);
        int tx = x[1] + mx.bitLength(), ty = y[1] + my.bitLength();
        if (tx - ty > GAP) return a;
        if (ty - tx > GAP) return b;
        int e = Math.min(x[1], y[1]);
        mx = mx.shiftLeft(x[1] - e); my = my.shiftLeft(y[1] - e);
        if (x[0] < 0) mx = mx.negate();
        if (y[0] < 0) my = my.negate();
        BigInteger r = mx.add(my);
        return norm(r.signum(), e, r.abs());
    }
    @TLAPlusOperator(identifier = "Mul", module = "BigFloat", warn = false)
    public static Value Mul(Value a, Value b) {
        int[] x = ints(a), y = ints(b);
        if (x[0] == 0 || y[0] == 0) return ZERO;
        return norm(x[0] * y[0], x[1] + y[1], mant(x).multiply(mant(y)));
    }
    @TLAPlusOperator(identifier = "Div", module = "BigFloat", warn = false)
    public static Value Div(Value a, Value b) {
        int[] x = ints(a), y = ints(b);
        if (x[0] == 0) return ZERO;
        BigInteger mx = mant(x), my = mant(y);
        int k = Math.max(0, PREC + 2 + my.bitLength() - mx.bitLength());
        return norm(x[0] * y[0], x[1] - y[1] - k, mx.shiftLeft(k).divide(my));
    }
    @TLAPlusOperator(identifier = "DivInt", module = "BigFloat", warn = false)
    public static Value DivInt(Value a, Value n) {
        int[] x = ints(a);
        if (x[0] == 0) return ZERO;
        BigInteger mx = mant(x);
        int k = Math.max(0, PREC + 20 - mx.bitLength());
        return norm(x[0], x[1] - k, mx.shiftLeft(k).divide(BigInteger.valueOf(((IntValue) n).val)));
    }
    @TLAPlusOperator(identifier = "Sqrt", module = "BigFloat", warn = false)
    public static Value Sqrt(Value a) {
        int[] x = ints(a);
        if (x[0] == 0) return ZERO;
        BigInteger mx = mant(x);
        int k0 = Math.max(0, 2 * PREC + 4 - mx.bitLength());
        int k = Math.floorMod(x[1] - k0, 2) == 0 ? k0 : k0 + 1;
        return norm(1, Math.floorDiv(x[1] - k, 2), mx.shiftLeft(k).sqrt());
    }
    @TLAPlusOperator(identifier = "Cmp", module = "BigFloat", warn = false)
    public static Value Cmp(Value a, Value b) {
        int[] x = ints(a), y = ints(b);
        int r;
        if (x[0] != y[0]) r = x[0] < y[0] ? -1 : 1;
        else if (x[0] == 0) r = 0;
        else {
            BigInteger mx = mant(x), my = mant(y);
            int tx = x[1] + mx.bitLength(), ty = y[1] + my.bitLength();
            if (tx != ty) r = tx < ty ? -x[0] : x[0];
            else {
                int e = Math.min(x[1], y[1]);
                r = x[0] * mx.shiftLeft(x[1] - e).compareTo(my.shiftLeft(y[1] - e));
            }
        }
        return IntValue.gen(r);
    }
}
