import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** BigInteger versions of the operators of spec/BigNum.tla. */
public class BigNumOverrides implements ITLCOverrides {
  @Override
  public Class[] get() { return new Class[] { BigNumOverrides.class }; }

  private static final IntValue[] SMALL = new IntValue[3];
  static { for (int i = 0; i < 3; i++) SMALL[i] = IntValue.gen(i - 1); }

  static BigInteger dec(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final int n = t.elems.length;
    final int s = ((IntValue) t.elems[0]).val;
    if (s == 0) return BigInteger.ZERO;
    if (n <= 5) { // up to 60 bits
      long x = 0;
      for (int i = n - 1; i >= 1; i--) x = (x << 15) | ((IntValue) t.elems[i]).val;
      return BigInteger.valueOf(s < 0 ? -x : x);
    }
    final int bits = 15 * (n - 1);
    final byte[] b = new byte[bits / 8 + 1]; // big endian magnitude
    int acc = 0, have = 0, pos = b.length - 1;
    for (int i = 1; i < n; i++) {
      acc |= ((IntValue) t.elems[i]).val << have;
      have += 15;
      while (have >= 8) { b[pos--] = (byte) acc; acc >>>= 8; have -= 8; }
    }
    if (have > 0) b[pos] = (byte) acc;
    return new BigInteger(s, b);
  }

  static Value enc(final BigInteger x) {
    final int s = x.signum();
    if (s == 0) return new TupleValue(new Value[] { SMALL[1] });
    final int bl = x.bitLength();
    if (bl <= 60) {
      long m = x.longValue();
      if (m < 0) m = -m;
      int k = 0;
      for (long y = m; y != 0; y >>>= 15) k++;
      final Value[] r = new Value[k + 1];
      r[0] = SMALL[s + 1];
      for (int i = 1; i <= k; i++) { r[i] = IntValue.gen((int) (m & 0x7fff)); m >>>= 15; }
      return new TupleValue(r);
    }
    final byte[] b = x.abs().toByteArray();
    final int k = (x.abs().bitLength() + 14) / 15;
    final Value[] r = new Value[k + 1];
    r[0] = SMALL[s + 1];
    int acc = 0, have = 0, pos = b.length - 1;
    for (int i = 1; i <= k; i++) {
      while (have < 15 && pos >= 0) { acc |= (b[pos--] & 0xff) << have; have += 8; }
      r[i] = IntValue.gen(acc & 0x7fff);
      acc >>>= 15; have -= 15;
      if (have < 0) have = 0;
    }
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "BInt", module = "BigNum", warn = false)
  public static Value bInt(final IntValue n) { return enc(BigInteger.valueOf(n.val)); }

  @TLAPlusOperator(identifier = "BNeg", module = "BigNum", warn = false)
  public static Value bNeg(final Value a) { return enc(dec(a).negate()); }

  @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
  public static Value bAdd(final Value a, final Value b) { return enc(dec(a).add(dec(b))); }

  @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
  public static Value bSub(final Value a, final Value b) { return enc(dec(a).subtract(dec(b))); }

  @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
  public static Value bMul(final Value a, final Value b) { return enc(dec(a).multiply(dec(b))); }

  @TLAPlusOperator(identifier = "BCmp", module = "BigNum", warn = false)
  public static Value bCmp(final Value a, final Value b) { return SMALL[dec(a).compareTo(dec(b)) + 1]; }

  @TLAPlusOperator(identifier = "BPow2", module = "BigNum", warn = false)
  public static Value bPow2(final IntValue k) { return enc(BigInteger.ONE.shiftLeft(k.val)); }

  @TLAPlusOperator(identifier = "BDot", module = "BigNum", warn = false)
  public static Value bDot(final Value u, final Value v) {
    final TupleValue a = (TupleValue) u.toTuple(), b = (TupleValue) v.toTuple();
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < a.elems.length; i++) r = r.add(dec(a.elems[i]).multiply(dec(b.elems[i])));
    return enc(r);
  }

  @TLAPlusOperator(identifier = "BSum", module = "BigNum", warn = false)
  public static Value bSum(final Value u) {
    BigInteger r = BigInteger.ZERO;
    for (Value x : ((TupleValue) u.toTuple()).elems) r = r.add(dec(x));
    return enc(r);
  }

  @TLAPlusOperator(identifier = "BVSub", module = "BigNum", warn = false)
  public static Value bVSub(final Value u, final Value v) {
    final TupleValue a = (TupleValue) u.toTuple(), b = (TupleValue) v.toTuple();
    final Value[] r = new Value[a.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = enc(dec(a.elems[i]).subtract(dec(b.elems[i])));
    return new TupleValue(r);
  }

  static BigInteger det(final BigInteger[][] m) {
    final int n = m.length;
    if (n == 1) return m[0][0];
    if (n == 2) return m[0][0].multiply(m[1][1]).subtract(m[0][1].multiply(m[1][0]));
    BigInteger r = BigInteger.ZERO;
    for (int j = 0; j < n; j++) {
      if (m[0][j].signum() == 0) continue;
      final BigInteger[][] k = new BigInteger[n - 1][n - 1];
      for (int i = 1; i < n; i++) for (int c = 0, d = 0; c < n; c++) if (c != j) k[i - 1][d++] = m[i][c];
      final BigInteger t = m[0][j].multiply(det(k));
      r = (j & 1) == 0 ? r.add(t) : r.subtract(t);
    }
    return r;
  }

  @TLAPlusOperator(identifier = "BDet", module = "BigNum", warn = false)
  public static Value bDet(final Value mm) {
    final TupleValue t = (TupleValue) mm.toTuple();
    final int n = t.elems.length;
    final BigInteger[][] m = new BigInteger[n][n];
    for (int i = 0; i < n; i++) {
      final TupleValue r = (TupleValue) t.elems[i].toTuple();
      for (int j = 0; j < n; j++) m[i][j] = dec(r.elems[j]);
    }
    return enc(det(m));
  }
}
