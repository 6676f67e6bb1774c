// Java evaluation of the operators of Big.tla, whose TLA+ bodies define them.  Numbers are
// big-endian byte tuples without leading zeros; zero is <<>>.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.math.BigInteger;

public class Big {
  static byte[] raw(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Big: not a sequence: " + v);
    Value[] e = ((TupleValue) t).elems;
    byte[] b = new byte[e.length];
    for (int i = 0; i < e.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
    return b;
  }
  static BigInteger big(Value v) { return new BigInteger(1, raw(v)); }
  static Value[] cache = new Value[256];
  static { for (int i = 0; i < 256; i++) cache[i] = IntValue.gen(i); }
  static Value seq(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = cache[b[i] & 255];
    return new TupleValue(e);
  }
  static Value num(BigInteger x) {
    if (x.signum() < 0) throw new RuntimeException("Big: negative result");
    byte[] b = x.toByteArray();
    int s = 0;
    while (s < b.length && b[s] == 0) s++;
    byte[] r = new byte[b.length - s];
    System.arraycopy(b, s, r, 0, r.length);
    return seq(r);
  }
  static int i(Value v) { return ((IntValue) v).val; }

  public static Value BNorm(Value a) { return num(big(a)); }
  public static Value BAdd(Value a, Value b) { return num(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return num(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return num(big(a).multiply(big(b))); }
  public static Value BDiv(Value a, Value b) { return num(big(a).divide(big(b))); }
  public static Value BMod(Value a, Value b) { return num(big(a).mod(big(b))); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value BAddMod(Value a, Value b, Value m) { return num(big(a).add(big(b)).mod(big(m))); }
  public static Value BSubMod(Value a, Value b, Value m) { return num(big(a).subtract(big(b)).mod(big(m))); }
  public static Value BMulMod(Value a, Value b, Value m) { return num(big(a).multiply(big(b)).mod(big(m))); }
  public static Value BPowMod(Value a, Value e, Value m) { return num(big(a).modPow(big(e), big(m))); }
  public static Value BInvMod(Value a, Value m) {
    BigInteger A = big(a).mod(big(m)), M = big(m);
    if (!A.gcd(M).equals(BigInteger.ONE)) return num(BigInteger.ZERO);
    if (M.equals(BigInteger.ONE)) return num(BigInteger.ZERO);
    return num(A.modInverse(M));
  }
  public static Value BGcd(Value a, Value b) { return num(big(a).gcd(big(b))); }
  public static Value BBits(Value a) { return IntValue.gen(big(a).bitLength()); }
  public static Value BBit(Value a, Value n) { return IntValue.gen(big(a).testBit(i(n)) ? 1 : 0); }
  public static Value BShr(Value a, Value n) { return num(big(a).shiftRight(i(n))); }
  public static Value BIsPrime(Value a) { return big(a).isProbablePrime(120) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BFromInt(Value n) { return num(BigInteger.valueOf(i(n))); }
  public static Value BToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value BPad(Value a, Value n) {
    byte[] b = raw(num(big(a)));
    int k = i(n);
    if (b.length > k) return seq(b);
    byte[] r = new byte[k];
    System.arraycopy(b, 0, r, k - b.length, b.length);
    return seq(r);
  }
  public static Value XorBytes(Value a, Value b) {
    byte[] x = raw(a), y = raw(b);
    int n = Math.min(x.length, y.length);
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++) r[i] = (byte) (x[i] ^ y[i]);
    return seq(r);
  }
}
