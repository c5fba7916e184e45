import java.security.MessageDigest;
import java.util.Arrays;
import java.util.Random;

/** The Keccak used by the oracle against the JDK's SHA3 and known SHAKE answers. */
public class SelfTest {
    static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x)); return s.toString(); }
    public static void main(String[] a) throws Exception {
        Random r = new Random(1);
        MessageDigest m = MessageDigest.getInstance("SHA3-256");
        for (int i = 0; i < 600; i++) {
            byte[] d = new byte[i]; r.nextBytes(d);
            if (!Arrays.equals(m.digest(d), CryptoOverrides.sponge(136, (byte) 6, d, 32))) { System.out.println("SHA3 mismatch"); System.exit(2); }
        }
        String e128 = hex(CryptoOverrides.shake(168, new byte[0], 32)), e256 = hex(CryptoOverrides.shake(136, new byte[0], 64));
        if (!e128.equals("7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26")
         || !e256.equals("46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762fd75dc4ddd8c0f200cb05019d67b592f6fc821c49479ab48640292eacb3b7c4be")) { System.out.println("SHAKE mismatch"); System.exit(2); }
        System.out.println("SELFTEST OK");
    }
}
