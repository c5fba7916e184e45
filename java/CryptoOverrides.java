import java.security.MessageDigest;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * The primitive hash functions that the specification takes as given.
 * Everything the standards say about how they are used is in TLA+.
 * SHA-2 comes from the JDK; SHAKE is implemented here from FIPS 202 (and
 * compared with known answers and the JDK's SHA3 in SelfTest).
 */
public class CryptoOverrides {
    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }
    private static final IntValue[] INTS = new IntValue[256];
    static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }
    static Value tuple(byte[] b, int n) {
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = INTS[b[i] & 255];
        return new TupleValue(e);
    }
    private static final ThreadLocal<MessageDigest[]> MD = ThreadLocal.withInitial(() -> {
        try {
            return new MessageDigest[] { MessageDigest.getInstance("SHA-256"),
                                         MessageDigest.getInstance("SHA-512") };
        } catch (Exception e) { throw new RuntimeException(e); }
    });

    @TLAPlusOperator(identifier = "CoreHash", module = "Crypto", warn = false)
    public static Value coreHash(final Value alg, final Value data, final Value outlen) {
        byte[] d = bytes(data);
        int n = ((IntValue) outlen).val;
        switch (((StringValue) alg).val.toString()) {
        case "SHA256": return tuple(MD.get()[0].digest(d), n);
        case "SHA512": return tuple(MD.get()[1].digest(d), n);
        case "SHAKE128": return tuple(shake(168, d, n), n);
        case "SHAKE256": return tuple(shake(136, d, n), n);
        }
        throw new RuntimeException("unknown hash " + alg);
    }

    @TLAPlusOperator(identifier = "XorBytes", module = "Crypto", warn = false)
    public static Value xor(final Value a, final Value b) {
        TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
        Value[] e = new Value[x.elems.length];
        for (int i = 0; i < e.length; i++)
            e[i] = INTS[((IntValue) x.elems[i]).val ^ ((IntValue) y.elems[i]).val];
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "HexBytes", module = "Crypto", warn = false)
    public static Value hex(final Value s) {
        String h = ((StringValue) s).val.toString();
        int n = h.length() / 2;
        byte[] b = new byte[n];
        for (int i = 0; i < n; i++) b[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
        return tuple(b, n);
    }

    // ---- Keccak (FIPS 202)
    private static final long[] RC = new long[24];
    static {
        int r = 1;
        for (int i = 0; i < 24; i++) {
            for (int j = 0; j < 7; j++) {
                if ((r & 1) != 0) RC[i] |= 1L << ((1 << j) - 1);
                r <<= 1;
                if ((r & 0x100) != 0) r ^= 0x171;
            }
        }
    }
    static void keccakF(long[] a) {
        long[] b = new long[25], c = new long[5];
        for (int round = 0; round < 24; round++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) {
                long t = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                for (int y = 0; y < 25; y += 5) a[x + y] ^= t;
            }
            int x = 1, y = 0;
            b[0] = a[0];
            for (int t = 0; t < 24; t++) {
                int nx = y, ny = (2 * x + 3 * y) % 5;
                b[nx + 5 * ny] = Long.rotateLeft(a[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64);
                x = nx; y = ny;
            }
            for (int yy = 0; yy < 25; yy += 5)
                for (int xx = 0; xx < 5; xx++)
                    a[xx + yy] = b[xx + yy] ^ (~b[(xx + 1) % 5 + yy] & b[(xx + 2) % 5 + yy]);
            a[0] ^= RC[round];
        }
    }
    static byte[] sponge(int rate, byte dom, byte[] d, int n) {
        long[] a = new long[25];
        byte[] p = new byte[(d.length / rate + 1) * rate];
        System.arraycopy(d, 0, p, 0, d.length);
        p[d.length] ^= dom;
        p[p.length - 1] ^= (byte) 0x80;
        for (int o = 0; o < p.length; o += rate) {
            for (int i = 0; i < rate; i++) a[i / 8] ^= (p[o + i] & 255L) << (8 * (i % 8));
            keccakF(a);
        }
        byte[] out = new byte[n];
        for (int i = 0; i < n; i++) {
            if (i > 0 && i % rate == 0) keccakF(a);
            int j = i % rate;
            out[i] = (byte) (a[j / 8] >>> (8 * (j % 8)));
        }
        return out;
    }
    static byte[] shake(int rate, byte[] d, int n) { return sponge(rate, (byte) 0x1F, d, n); }
}
