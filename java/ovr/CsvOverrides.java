package ovr;

import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.HashSet;
import java.util.HexFormat;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC evaluates the byte-string operators of module Bytes with these methods.
 * They depend on the JDK only, never on the code under test: SHA-256 is the
 * JDK's, RIPEMD-160 is implemented below from its definition.
 */
public class CsvOverrides implements ITLCOverrides {
  private static final HexFormat HF = HexFormat.of();

  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {CsvOverrides.class}; }

  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  private static byte[] bytes(Value v) { return HF.parseHex(s(v)); }
  private static int i(Value v) { return ((IntValue) v).val; }
  private static Value str(String x) { return new StringValue(x); }
  private static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }

  @TLAPlusOperator(identifier = "Sha256", module = "Bytes", warn = false)
  public static Value sha256(final Value h) throws Exception {
    return str(HF.formatHex(MessageDigest.getInstance("SHA-256").digest(bytes(h))));
  }

  @TLAPlusOperator(identifier = "Ripemd160", module = "Bytes", warn = false)
  public static Value ripemd160(final Value h) { return str(HF.formatHex(rmd(bytes(h)))); }

  @TLAPlusOperator(identifier = "StrHex", module = "Bytes", warn = false)
  public static Value strHex(final Value x) {
    return str(HF.formatHex(s(x).getBytes(StandardCharsets.UTF_8)));
  }

  /** Inverse of StrHex (for generated data that is ASCII). */
  @TLAPlusOperator(identifier = "HexStr", module = "Bytes", warn = false)
  public static Value hexStr(final Value x) {
    return str(new String(bytes(x), StandardCharsets.ISO_8859_1));
  }

  @TLAPlusOperator(identifier = "LE", module = "Bytes", warn = false)
  public static Value le(final IntValue n, final IntValue k) { return str(le(BigInteger.valueOf(n.val), k.val)); }

  private static String le(BigInteger v, int k) {
    byte[] out = new byte[k];
    for (int j = 0; j < k; j++) {
      out[j] = v.byteValue();
      v = v.shiftRight(8);
    }
    return HF.formatHex(out);
  }

  private static BigInteger fromLe(byte[] b) {
    byte[] r = new byte[b.length];
    for (int j = 0; j < b.length; j++) r[j] = b[b.length - 1 - j];
    return new BigInteger(1, r);
  }

  /** 2^d as little-endian integer of k bytes. */
  @TLAPlusOperator(identifier = "Pow2LE", module = "Bytes", warn = false)
  public static Value pow2le(final IntValue d, final IntValue k) {
    return str(le(BigInteger.ONE.shiftLeft(d.val), k.val));
  }

  /** max(0, 2^d - c) as little-endian integer of k bytes. */
  @TLAPlusOperator(identifier = "Pow2SubLE", module = "Bytes", warn = false)
  public static Value pow2suble(final IntValue d, final IntValue c, final IntValue k) {
    return str(le(BigInteger.ONE.shiftLeft(d.val).subtract(BigInteger.valueOf(c.val)).max(BigInteger.ZERO), k.val));
  }

  private static long mod(byte[] pid, int d, int c) {
    BigInteger w = BigInteger.ONE.shiftLeft(d).subtract(BigInteger.valueOf(c)).max(BigInteger.ONE);
    return fromLe(pid).mod(w).longValueExact();
  }

  /** Little-endian integer value of the bytes, modulo max(1, 2^d - c). */
  @TLAPlusOperator(identifier = "LEMod", module = "Bytes", warn = false)
  public static Value lemod(final Value pid, final IntValue d, final IntValue c) {
    return IntValue.gen((int) mod(bytes(pid), d.val, c.val));
  }

  /** Whether the ids of the sequence have pairwise different LEMod. */
  @TLAPlusOperator(identifier = "LEModInjective", module = "Bytes", warn = false)
  public static Value lemodInj(final Value pids, final IntValue d, final IntValue c) {
    HashSet<Long> seen = new HashSet<>();
    for (Value p : elems(pids)) if (!seen.add(mod(bytes(p), d.val, c.val))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  /** Unsigned integer value of the little-endian bytes; must be below 2^31. */
  @TLAPlusOperator(identifier = "LEInt", module = "Bytes", warn = false)
  public static Value leint(final Value h) { return IntValue.gen(fromLe(bytes(h)).intValueExact()); }

  /** Number of bytes. */
  @TLAPlusOperator(identifier = "NBytes", module = "Bytes", warn = false)
  public static Value nbytes(final Value h) { return IntValue.gen(s(h).length() / 2); }

  /** Bytes from..to (0-based, to exclusive). */
  @TLAPlusOperator(identifier = "BytesAt", module = "Bytes", warn = false)
  public static Value bytesAt(final Value h, final IntValue from, final IntValue to) {
    return str(s(h).substring(2 * from.val, 2 * to.val));
  }

  @TLAPlusOperator(identifier = "Cat", module = "Bytes", warn = false)
  public static Value cat(final Value seq) {
    StringBuilder b = new StringBuilder();
    for (Value v : elems(seq)) b.append(s(v));
    return str(b.toString());
  }

  @TLAPlusOperator(identifier = "Rep", module = "Bytes", warn = false)
  public static Value rep(final Value x, final IntValue n) { return str(s(x).repeat(n.val)); }

  /** Strict lexicographic order of the strings (of the bytes, for hex). */
  @TLAPlusOperator(identifier = "LexLess", module = "Bytes", warn = false)
  public static Value lexLess(final Value a, final Value b) {
    return s(a).compareTo(s(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  /** The elements of a sequence of strings, sorted lexicographically. */
  @TLAPlusOperator(identifier = "SortLex", module = "Bytes", warn = false)
  public static Value sortLex(final Value seq) {
    Value[] e = elems(seq).clone();
    Arrays.sort(e, (x, y) -> s(x).compareTo(s(y)));
    return new TupleValue(e);
  }

  /** Decimal digits of the unsigned little-endian integer. */
  @TLAPlusOperator(identifier = "LEDec", module = "Bytes", warn = false)
  public static Value leDec(final Value h) { return str(fromLe(bytes(h)).toString()); }

  // ---------------------------------------------------------------- RIPEMD-160
  private static final int[] R1 = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
      3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  private static final int[] R2 = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
      15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  private static final int[] S1 = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
      11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  private static final int[] S2 = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
      9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  private static final int[] K1 = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
  private static final int[] K2 = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};

  private static int f(int j, int x, int y, int z) {
    switch (j >> 4) {
      case 0: return x ^ y ^ z;
      case 1: return (x & y) | (~x & z);
      case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z);
      default: return x ^ (y | ~z);
    }
  }

  private static byte[] rmd(byte[] m) {
    int padded = ((m.length + 8) / 64 + 1) * 64;
    byte[] b = Arrays.copyOf(m, padded);
    b[m.length] = (byte) 0x80;
    long bits = 8L * m.length;
    for (int j = 0; j < 8; j++) b[padded - 8 + j] = (byte) (bits >>> (8 * j));
    int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    for (int o = 0; o < padded; o += 64) {
      int[] x = new int[16];
      for (int j = 0; j < 64; j++) x[j / 4] |= (b[o + j] & 0xFF) << (8 * (j % 4));
      int a1 = h[0], b1 = h[1], c1 = h[2], d1 = h[3], e1 = h[4];
      int a2 = a1, b2 = b1, c2 = c1, d2 = d1, e2 = e1;
      for (int j = 0; j < 80; j++) {
        int t = Integer.rotateLeft(a1 + f(j, b1, c1, d1) + x[R1[j]] + K1[j >> 4], S1[j]) + e1;
        a1 = e1; e1 = d1; d1 = Integer.rotateLeft(c1, 10); c1 = b1; b1 = t;
        t = Integer.rotateLeft(a2 + f(79 - j, b2, c2, d2) + x[R2[j]] + K2[j >> 4], S2[j]) + e2;
        a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = t;
      }
      int t = h[1] + c1 + d2;
      h[1] = h[2] + d1 + e2; h[2] = h[3] + e1 + a2; h[3] = h[4] + a1 + b2; h[4] = h[0] + b1 + c2; h[0] = t;
    }
    byte[] out = new byte[20];
    for (int j = 0; j < 20; j++) out[j] = (byte) (h[j / 4] >>> (8 * (j % 4)));
    return out;
  }
}
