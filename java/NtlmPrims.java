import java.nio.ByteBuffer;
import java.nio.charset.CharacterCodingException;
import java.nio.charset.CodingErrorAction;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.Locale;
import javax.crypto.Cipher;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Primitive functions of module Prims: the hash, cipher and text primitives that MS-NLMP itself
 * takes as given. Everything NTLM-specific (what is hashed, keyed, concatenated, laid out) is in
 * the TLA+ modules.
 */
public class NtlmPrims implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] {NtlmPrims.class};
    }

    private static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new IllegalArgumentException("not a sequence: " + v);
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new IllegalArgumentException("not a byte: " + x);
            b[i] = (byte) x;
        }
        return b;
    }

    private static Value seq(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
        return new TupleValue(e);
    }

    private static Value seq(int[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i]);
        return new TupleValue(e);
    }

    private static String text(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        StringBuilder s = new StringBuilder();
        for (Value e : t.elems) s.appendCodePoint(((IntValue) e).val);
        return s.toString();
    }

    @TLAPlusOperator(identifier = "Rank", module = "Prims", warn = false)
    public static Value rank(final Value v) {
        TupleValue q = (TupleValue) v.toTuple();
        java.util.TreeMap<Integer, java.math.BigInteger> rows = new java.util.TreeMap<>();
        java.math.BigInteger first = null;
        for (Value e : q.elems) {
            java.math.BigInteger x = new java.math.BigInteger(1, bytes(e));
            if (first == null) first = x;
            x = x.xor(first);
            while (x.signum() != 0) {
                int top = x.bitLength();
                java.math.BigInteger r = rows.get(top);
                if (r == null) {
                    rows.put(top, x);
                    break;
                }
                x = x.xor(r);
            }
        }
        return IntValue.gen(rows.size());
    }

    @TLAPlusOperator(identifier = "MD5", module = "Prims", warn = false)
    public static Value md5(final Value v) throws Exception {
        return seq(MessageDigest.getInstance("MD5").digest(bytes(v)));
    }

    @TLAPlusOperator(identifier = "HmacMD5", module = "Prims", warn = false)
    public static Value hmac(final Value k, final Value m) throws Exception {
        Mac mac = Mac.getInstance("HmacMD5");
        mac.init(new SecretKeySpec(bytes(k), "HmacMD5"));
        return seq(mac.doFinal(bytes(m)));
    }

    @TLAPlusOperator(identifier = "DesBlock", module = "Prims", warn = false)
    public static Value des(final Value k, final Value m) throws Exception {
        Cipher c = Cipher.getInstance("DES/ECB/NoPadding");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(k), "DES"));
        return seq(c.doFinal(bytes(m)));
    }

    @TLAPlusOperator(identifier = "Rc4", module = "Prims", warn = false)
    public static Value rc4(final Value k, final Value m) throws Exception {
        Cipher c = Cipher.getInstance("ARCFOUR");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(k), "ARCFOUR"));
        return seq(c.doFinal(bytes(m)));
    }

    /** RFC 1320 */
    @TLAPlusOperator(identifier = "MD4", module = "Prims", warn = false)
    public static Value md4(final Value v) {
        byte[] in = bytes(v);
        int n = ((in.length + 8) / 64 + 1) * 64;
        byte[] p = java.util.Arrays.copyOf(in, n);
        p[in.length] = (byte) 0x80;
        long bits = 8L * in.length;
        for (int i = 0; i < 8; i++) p[n - 8 + i] = (byte) (bits >>> (8 * i));
        int a = 0x67452301, b = 0xefcdab89, c = 0x98badcfe, d = 0x10325476;
        int[] x = new int[16];
        int[] s1 = {3, 7, 11, 19}, s2 = {3, 5, 9, 13}, s3 = {3, 9, 11, 15};
        int[] o3 = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
        for (int off = 0; off < n; off += 64) {
            for (int i = 0; i < 16; i++)
                x[i] = (p[off + 4 * i] & 255) | (p[off + 4 * i + 1] & 255) << 8
                        | (p[off + 4 * i + 2] & 255) << 16 | (p[off + 4 * i + 3] & 255) << 24;
            int aa = a, bb = b, cc = c, dd = d;
            for (int r = 0; r < 48; r++) {
                int f, k, s;
                if (r < 16) {
                    f = (b & c) | (~b & d);
                    k = r;
                    s = s1[r % 4];
                } else if (r < 32) {
                    f = ((b & c) | (b & d) | (c & d)) + 0x5a827999;
                    k = (r % 4) * 4 + (r - 16) / 4;
                    s = s2[r % 4];
                } else {
                    f = (b ^ c ^ d) + 0x6ed9eba1;
                    k = o3[r - 32];
                    s = s3[r % 4];
                }
                int t = Integer.rotateLeft(a + f + x[k], s);
                a = d;
                d = c;
                c = b;
                b = t;
            }
            a += aa;
            b += bb;
            c += cc;
            d += dd;
        }
        byte[] out = new byte[16];
        int[] w = {a, b, c, d};
        for (int i = 0; i < 16; i++) out[i] = (byte) (w[i / 4] >>> (8 * (i % 4)));
        return seq(out);
    }

    @TLAPlusOperator(identifier = "Unhex", module = "Prims", warn = false)
    public static Value unhex(final Value v) {
        String s = ((StringValue) v).val.toString();
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++)
            b[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4)
                    | Character.digit(s.charAt(2 * i + 1), 16));
        return seq(b);
    }

    @TLAPlusOperator(identifier = "ToHex", module = "Prims", warn = false)
    public static Value tohex(final Value v) {
        StringBuilder s = new StringBuilder();
        for (byte b : bytes(v)) s.append(String.format("%02x", b & 255));
        return new StringValue(s.toString());
    }

    /** Unicode default upper-casing (full mappings) of a sequence of code points */
    @TLAPlusOperator(identifier = "UpperCase", module = "Prims", warn = false)
    public static Value upper(final Value v) {
        return seq(text(v).toUpperCase(Locale.ROOT).codePoints().toArray());
    }

    @TLAPlusOperator(identifier = "Utf8", module = "Prims", warn = false)
    public static Value utf8(final Value v) {
        return seq(text(v).getBytes(StandardCharsets.UTF_8));
    }

    /** << >> when the bytes are not UTF-8, << code points >> otherwise */
    @TLAPlusOperator(identifier = "Utf8Decode", module = "Prims", warn = false)
    public static Value utf8Decode(final Value v) {
        try {
            String s = StandardCharsets.UTF_8.newDecoder()
                    .onMalformedInput(CodingErrorAction.REPORT)
                    .onUnmappableCharacter(CodingErrorAction.REPORT)
                    .decode(ByteBuffer.wrap(bytes(v))).toString();
            return new TupleValue(new Value[] {seq(s.codePoints().toArray())});
        } catch (CharacterCodingException e) {
            return new TupleValue(new Value[] {});
        }
    }

    /** Whether the non-empty sequence a occurs in b (both sequences of bytes) */
    @TLAPlusOperator(identifier = "Occurs", module = "Prims", warn = false)
    public static Value occurs(final Value a, final Value b) {
        byte[] n = bytes(a), h = bytes(b);
        outer:
        for (int i = 0; i + n.length <= h.length; i++) {
            for (int j = 0; j < n.length; j++) if (h[i + j] != n[j]) continue outer;
            return BoolValue.ValTrue;
        }
        return BoolValue.ValFalse;
    }

      /** Debug rendering support: the bytes of an ASCII string */
    @TLAPlusOperator(identifier = "Ascii", module = "Prims", warn = false)
    public static Value ascii(final Value v) {
        return seq(((StringValue) v).val.toString().getBytes(StandardCharsets.UTF_8));
    }

    private static boolean in(String needle, String hay) {
        return !needle.isEmpty() && hay.contains(needle);
    }

    /** Whether the text io shows the bytes s: raw, in hexadecimal, as a list of numbers or base64 */
    @TLAPlusOperator(identifier = "Leaks", module = "Prims", warn = false)
    public static Value leaks(final Value sv, final Value iov) {
        byte[] s = bytes(sv), io = bytes(iov);
        String raw = new String(io, StandardCharsets.ISO_8859_1);
        if (in(new String(s, StandardCharsets.ISO_8859_1), raw)) return BoolValue.ValTrue;
        String flat = raw.replaceAll("\\s", "");
        String bare = flat.replaceAll("0x|0X", "").toLowerCase(Locale.ROOT);
        StringBuilder hex = new StringBuilder(), hexs = new StringBuilder(), hexu = new StringBuilder(), dec = new StringBuilder();
        for (byte b : s) {
            hex.append(String.format("%02x", b & 255));
            hexs.append(String.format("%02x,", b & 255));
            hexu.append(String.format("%x,", b & 255));
            dec.append(b & 255).append(',');
        }
        String noSep = bare.replaceAll("[,:;_-]", "");
        String last = dec.substring(0, Math.max(0, dec.length() - 1));
        boolean r = in(hex.toString(), noSep)
                || (s.length > 4 && in(hexs.substring(0, hexs.length() - 1), bare))
                || (s.length > 4 && in(hexu.substring(0, hexu.length() - 1), bare))
                || (s.length > 4 && in(last, flat))
                || in(java.util.Base64.getEncoder().withoutPadding().encodeToString(s), flat);
        return r ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
