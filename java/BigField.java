import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC module override for BigField.tla: same operators, evaluated with BigInteger. */
public class BigField {
  static final int NL = 17, LB = 15;

  /** A limb tuple that remembers its integer value. */
  static final class Big extends TupleValue {
    final BigInteger v;
    Big(Value[] elems, BigInteger v) { super(elems); this.v = v; }
  }

  private static final ThreadLocal<Object[]> LASTP = ThreadLocal.withInitial(() -> new Object[2]);

  static BigInteger num(Value x) {
    if (x instanceof Big) return ((Big) x).v;
    TupleValue t = (TupleValue) x.toTuple();
    if (t.elems.length != NL) throw new IllegalArgumentException("not a field element: " + x);
    byte[] be = new byte[33];
    long acc = 0; int bits = 0, pos = 32;
    for (int i = 0; i < NL; i++) {
      int limb = ((IntValue) t.elems[i]).val;
      if (limb < 0 || limb >= (1 << LB)) throw new IllegalArgumentException("limb out of range: " + x);
      acc |= ((long) limb) << bits; bits += LB;
      while (bits >= 8) { be[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
    }
    if (pos >= 0) be[pos] = (byte) acc;
    return new BigInteger(1, be);
  }

  static BigInteger mod(Value P) {
    Object[] c = LASTP.get();
    if (c[0] == P) return (BigInteger) c[1];
    BigInteger m = num(P);
    c[0] = P; c[1] = m;
    return m;
  }

  static Value val(BigInteger n) {
    Value[] e = new Value[NL];
    byte[] be = n.toByteArray();
    long acc = 0; int bits = 0, pos = be.length - 1;
    for (int i = 0; i < NL; i++) {
      while (bits < LB) {
        if (pos >= 0) acc |= ((long) (be[pos--] & 0xff)) << bits;
        bits += 8;
      }
      e[i] = IntValue.gen((int) (acc & 0x7fff));
      acc >>>= LB; bits -= LB;
    }
    return new Big(e, n);
  }

  public static Value BAdd(Value P, Value a, Value b) {
    BigInteger m = mod(P), r = num(a).add(num(b));
    return val(r.compareTo(m) >= 0 ? r.subtract(m) : r);
  }
  public static Value BSub(Value P, Value a, Value b) {
    BigInteger m = mod(P), r = num(a).subtract(num(b));
    return val(r.signum() < 0 ? r.add(m) : r);
  }
  public static Value BMul(Value P, Value a, Value b) {
    return val(num(a).multiply(num(b)).mod(mod(P)));
  }
  public static Value BInv(Value P, Value a) {
    BigInteger x = num(a);
    return val(x.signum() == 0 ? x : x.modInverse(mod(P)));
  }
  public static Value BReduce(Value P, Value a) { return val(num(a).mod(mod(P))); }
}
