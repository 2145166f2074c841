import tlc2.value.impl.*;

/** TLC operator overrides for spec/Tower.tla (checked against it by MCTower). */
public class Tower {
  static final int[][] MUL8 = new int[256][256];
  static boolean ready = false;
  static { for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) MUL8[i][j] = (int) mulr(3, i, j); ready = true; }

  static long alpha(int k, long a) {
    if (k == 0) return a;
    int hb = 1 << (k - 1); long m = (1L << hb) - 1;
    long a0 = a & m, a1 = a >>> hb;
    return a1 | ((a0 ^ alpha(k - 1, a1)) << hb);
  }
  static long mulr(int k, long a, long b) {
    if (a == 0 || b == 0) return 0;
    if (k == 0) return 1;
    if (k == 3 && ready) return MUL8[(int) a][(int) b];
    int hb = 1 << (k - 1); long m = (1L << hb) - 1;
    long a0 = a & m, a1 = a >>> hb, b0 = b & m, b1 = b >>> hb;
    long z0 = mulr(k - 1, a0, b0), z2 = mulr(k - 1, a1, b1), z1 = mulr(k - 1, a0 ^ a1, b0 ^ b1) ^ z0 ^ z2;
    return (z0 ^ z2) | ((z1 ^ alpha(k - 1, z2)) << hb);
  }
  static int inv16(int a) { long s = a, r = 1; for (int i = 0; i < 15; i++) { s = mulr(4, s, s); r = mulr(4, r, s); } return (int) r; }

  static int iv(Value v) { int x = ((IntValue) v).val; if (x < 0 || x > 65535) throw new RuntimeException("not a B16 element: " + x); return x; }
  public static Value FAdd(final IntValue a, final IntValue b) { return IntValue.gen(iv(a) ^ iv(b)); }
  public static Value FMul(final IntValue a, final IntValue b) { return IntValue.gen((int) mulr(4, iv(a), iv(b))); }
  public static Value FInv(final IntValue a) { return IntValue.gen(inv16(iv(a))); }

  static long[] get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t.elems.length != 8) throw new RuntimeException("not a B128 element");
    long lo = 0, hi = 0;
    for (int i = 0; i < 4; i++) { lo |= ((long) iv(t.elems[i])) << (16 * i); hi |= ((long) iv(t.elems[4 + i])) << (16 * i); }
    return new long[] { lo, hi };
  }
  static Value put(long[] r) {
    Value[] e = new Value[8];
    for (int i = 0; i < 4; i++) { e[i] = IntValue.gen((int) ((r[0] >>> (16 * i)) & 0xffff)); e[4 + i] = IntValue.gen((int) ((r[1] >>> (16 * i)) & 0xffff)); }
    return new TupleValue(e);
  }
  static long[] mul(long[] x, long[] y) {
    long z0 = mulr(6, x[0], y[0]), z2 = mulr(6, x[1], y[1]), z1 = mulr(6, x[0] ^ x[1], y[0] ^ y[1]) ^ z0 ^ z2;
    return new long[] { z0 ^ z2, z1 ^ alpha(6, z2) };
  }
  public static Value BAdd(final Value a, final Value b) { long[] x = get(a), y = get(b); return put(new long[] { x[0] ^ y[0], x[1] ^ y[1] }); }
  public static Value BMul(final Value a, final Value b) { return put(mul(get(a), get(b))); }
  public static Value BInv(final Value a) {
    long[] s = get(a), r = { 1, 0 };
    for (int i = 0; i < 127; i++) { s = mul(s, s); r = mul(r, s); }
    return put(r);
  }
}
