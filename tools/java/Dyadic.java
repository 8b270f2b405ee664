import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of module Dyadic: exact base-2^15 numbers on BigInteger. Same canonical form as DyadicPure. */
public class Dyadic {
  private static final TupleValue NAN = new TupleValue(new Value[] {IntValue.gen(2)});
  private static final TupleValue ZERO = new TupleValue(new Value[] {IntValue.gen(0), IntValue.gen(0)});

  /** m * B^q, or null for NaN. */
  private static final class N {
    final BigInteger m;
    final int q;
    N(BigInteger m, int q) { this.m = m; this.q = q; }
  }

  private static N get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    int s = ((IntValue) e[0]).val;
    if (s == 2) return null;
    if (s == 0) return new N(BigInteger.ZERO, 0);
    int n = e.length - 2;
    BigInteger m;
    if (n <= 4) {
      long r = 0;
      for (int i = n - 1; i >= 0; i--) r = (r << 15) | ((IntValue) e[i + 2]).val;
      m = BigInteger.valueOf(r);
    } else {
      // 15-bit limbs into a big-endian byte array
      int bits = n * 15;
      byte[] by = new byte[bits / 8 + 2];
      int len = by.length;
      long acc = 0;
      int have = 0, out = len - 1;
      for (int i = 0; i < n; i++) {
        acc |= ((long) ((IntValue) e[i + 2]).val) << have;
        have += 15;
        while (have >= 8) { by[out--] = (byte) acc; acc >>>= 8; have -= 8; }
      }
      by[out] = (byte) acc;
      m = new BigInteger(1, by);
    }
    if (s < 0) m = m.negate();
    return new N(m, ((IntValue) e[1]).val);
  }

  private static Value put(BigInteger m, int q) {
    int s = m.signum();
    if (s == 0) return ZERO;
    BigInteger a = m.abs();
    int z = a.getLowestSetBit() / 15;
    if (z > 0) { a = a.shiftRight(15 * z); q += z; }
    int n = (a.bitLength() + 14) / 15;
    Value[] e = new Value[n + 2];
    e[0] = IntValue.gen(s);
    e[1] = IntValue.gen(q);
    if (n <= 4) {
      long r = a.longValue();
      for (int i = 0; i < n; i++) { e[i + 2] = IntValue.gen((int) (r & 32767)); r >>>= 15; }
    } else {
      byte[] by = a.toByteArray();
      int in = by.length - 1, have = 0;
      long acc = 0;
      for (int i = 0; i < n; i++) {
        while (have < 15) { if (in >= 0) acc |= ((long) (by[in--] & 255)) << have; have += 8; }
        e[i + 2] = IntValue.gen((int) (acc & 32767));
        acc >>>= 15;
        have -= 15;
      }
    }
    return new TupleValue(e);
  }
  private static Value put(N n) { return n == null ? NAN : put(n.m, n.q); }

  private static N add(N a, N b) {
    if (a == null || b == null) return null;
    if (a.m.signum() == 0) return b;
    if (b.m.signum() == 0) return a;
    if (a.q == b.q) return new N(a.m.add(b.m), a.q);
    if (a.q > b.q) return new N(a.m.shiftLeft(15 * (a.q - b.q)).add(b.m), b.q);
    return new N(a.m.add(b.m.shiftLeft(15 * (b.q - a.q))), a.q);
  }
  private static N mul(N a, N b) {
    if (a == null || b == null) return null;
    return new N(a.m.multiply(b.m), a.q + b.q);
  }
  private static N neg(N a) { return a == null ? null : new N(a.m.negate(), a.q); }
  private static int cmp(N a, N b) { return add(a, neg(b)).m.signum(); }

  public static Value IsNum(Value a) { return ((IntValue) ((TupleValue) a.toTuple()).elems[0]).val == 2 ? BoolValue.ValFalse : BoolValue.ValTrue; }
  public static Value DNeg(Value a) { return put(neg(get(a))); }
  public static Value DAbs(Value a) { N n = get(a); return n == null ? NAN : put(n.m.abs(), n.q); }
  public static Value DAdd(Value a, Value b) { return put(add(get(a), get(b))); }
  public static Value DSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
  public static Value DMul(Value a, Value b) { return put(mul(get(a), get(b))); }
  public static Value DSgn(Value a) { N n = get(a); return IntValue.gen(n == null ? 2 : n.m.signum()); }
  public static Value DLe(Value a, Value b) {
    N x = get(a), y = get(b);
    return x != null && y != null && cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value DLt(Value a, Value b) {
    N x = get(a), y = get(b);
    return x != null && y != null && cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value DInt(Value k) { return put(BigInteger.valueOf(((IntValue) k).val), 0); }
  public static Value DTwo(Value k) {
    int v = ((IntValue) k).val, r = Math.floorMod(v, 15);
    return put(BigInteger.ONE.shiftLeft(r), (v - r) / 15);
  }
  public static Value DRound(Value a, Value n) {
    int k = ((IntValue) n).val;
    TupleValue t = (TupleValue) a.toTuple();
    if (t.elems.length - 2 <= k) return a;
    N x = get(a);
    if (x == null) return NAN;
    int d = (x.m.abs().bitLength() + 14) / 15 - k;
    if (d <= 0) return put(x);
    BigInteger m = x.m.abs().shiftRight(15 * d);
    return put(x.m.signum() < 0 ? m.negate() : m, x.q + d);
  }
  public static Value DDiv(Value a, Value b, Value n) {
    N x = get(a), y = get(b);
    if (x == null || y == null || y.m.signum() == 0) return NAN;
    if (x.m.signum() == 0) return ZERO;
    int la = (x.m.abs().bitLength() + 14) / 15, lb = (y.m.abs().bitLength() + 14) / 15;
    int sh = Math.max(0, ((IntValue) n).val + lb - la);
    return put(x.m.shiftLeft(15 * sh).divide(y.m), x.q - sh - y.q);
  }
  public static Value DSum(Value s) {
    N r = new N(BigInteger.ZERO, 0);
    for (Value v : ((TupleValue) s.toTuple()).elems) r = add(r, get(v));
    return put(r);
  }
  public static Value DDot(Value s, Value t) {
    Value[] a = ((TupleValue) s.toTuple()).elems, b = ((TupleValue) t.toTuple()).elems;
    N r = new N(BigInteger.ZERO, 0);
    for (int i = 0; i < a.length && i < b.length; i++) r = add(r, mul(get(a[i]), get(b[i])));
    return put(r);
  }
  public static Value DMaxAbs(Value s) {
    N r = new N(BigInteger.ZERO, 0);
    for (Value v : ((TupleValue) s.toTuple()).elems) {
      N x = get(v);
      if (x == null) return NAN;
      x = new N(x.m.abs(), x.q);
      if (cmp(r, x) < 0) r = x;
    }
    return put(r);
  }
}
