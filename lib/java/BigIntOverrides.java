import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Faster evaluation of the natural-number operators of BigInt.tla, whose TLA+ definitions say what
 * they mean; MC_BigIntJava compares the two.  Only magnitudes: little-endian limbs of 12 bits.
 */
public class BigIntOverrides implements ITLCOverrides {
    static final int LB = 12, MASK = (1 << LB) - 1;

    public Class[] get() {
        return new Class[] {BigIntOverrides.class};
    }

    static BigInteger big(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final byte[] b = new byte[(e.length * LB) / 8 + 2];
        for (int i = 0; i < e.length; i++) {
            final int d = ((IntValue) e[i]).val;
            if (d < 0 || d > MASK) throw new IllegalArgumentException("limb " + d);
            final int at = i * LB, k = at / 8;
            final int w = d << (at % 8);
            b[b.length - 1 - k] |= (byte) w;
            b[b.length - 2 - k] |= (byte) (w >> 8);
        }
        return new BigInteger(1, b);
    }

    static Value val(final BigInteger n) {
        final byte[] b = n.toByteArray();
        final int len = (n.bitLength() + LB - 1) / LB;
        final Value[] e = new Value[len];
        for (int i = 0; i < len; i++) {
            final int at = i * LB, k = at / 8;
            int w = 0;
            for (int j = 2; j >= 0; j--) {
                final int p = b.length - 1 - k - j;
                w = (w << 8) | (p >= 0 ? b[p] & 255 : 0);
            }
            e[i] = IntValue.gen((w >> (at % 8)) & MASK);
        }
        return new TupleValue(e);
    }

    static int num(final Value v) {
        return ((IntValue) v).val;
    }

    @TLAPlusOperator(identifier = "AddN", module = "BigInt", warn = false)
    public static Value AddN(final Value p, final Value q) {
        return val(big(p).add(big(q)));
    }

    @TLAPlusOperator(identifier = "SubN", module = "BigInt", warn = false)
    public static Value SubN(final Value p, final Value q) {
        final BigInteger d = big(p).subtract(big(q));
        if (d.signum() < 0) throw new IllegalArgumentException("SubN of a larger number");
        return val(d);
    }

    @TLAPlusOperator(identifier = "MulSmall", module = "BigInt", warn = false)
    public static Value MulSmall(final Value p, final Value m) {
        return val(big(p).multiply(BigInteger.valueOf(num(m))));
    }

    @TLAPlusOperator(identifier = "MulN", module = "BigInt", warn = false)
    public static Value MulN(final Value p, final Value q) {
        return val(big(p).multiply(big(q)));
    }

    @TLAPlusOperator(identifier = "DivN", module = "BigInt", warn = false)
    public static Value DivN(final Value p, final Value q) {
        final BigInteger[] r = big(p).divideAndRemainder(big(q));
        return new TupleValue(new Value[] {val(r[0]), val(r[1])});
    }

    @TLAPlusOperator(identifier = "CmpN", module = "BigInt", warn = false)
    public static Value CmpN(final Value p, final Value q) {
        return IntValue.gen(big(p).compareTo(big(q)));
    }

    @TLAPlusOperator(identifier = "LowN", module = "BigInt", warn = false)
    public static Value LowN(final Value p, final Value n) {
        return val(big(p).mod(BigInteger.ONE.shiftLeft(num(n))));
    }

    @TLAPlusOperator(identifier = "ShrN", module = "BigInt", warn = false)
    public static Value ShrN(final Value p, final Value n) {
        return val(big(p).shiftRight(num(n)));
    }

    @TLAPlusOperator(identifier = "ShlN", module = "BigInt", warn = false)
    public static Value ShlN(final Value p, final Value n) {
        return val(big(p).shiftLeft(num(n)));
    }
}
