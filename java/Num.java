import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Unbounded-integer implementation of the operators of spec/Num.tla.
 *
 * TLC's own integers are 32 bits wide.  A number that fits is an IntValue, any
 * other number is its decimal numeral as a StringValue; every operator returns
 * this normal form, so equal numbers are equal TLA+ values of equal kind.  The
 * definitions in Num.tla are the meaning of these methods: spec/NumSelf.tla
 * compares the two.
 */
public class Num {
  private static final BigInteger LO = BigInteger.valueOf(Integer.MIN_VALUE);
  private static final BigInteger HI = BigInteger.valueOf(Integer.MAX_VALUE);

  private static boolean small(Value v) { return v instanceof IntValue; }

  private static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue)
      return new BigInteger(((StringValue) v).getVal().toString());
    throw new RuntimeException("Num: not a number: " + v);
  }

  private static Value num(BigInteger b) {
    if (b.bitLength() < 32) return IntValue.gen(b.intValue());
    return new StringValue(UniqueString.uniqueStringOf(b.toString()));
  }

  private static Value num(long l) {
    if (l == (int) l) return IntValue.gen((int) l);
    return new StringValue(UniqueString.uniqueStringOf(Long.toString(l)));
  }

  private static Value bool(boolean b) {
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static long lv(Value v) { return ((IntValue) v).val; }

  public static Value NNorm(Value a) { return num(big(a)); }

  public static Value NAdd(Value a, Value b) {
    if (small(a) && small(b)) return num(lv(a) + lv(b));
    return num(big(a).add(big(b)));
  }

  public static Value NSub(Value a, Value b) {
    if (small(a) && small(b)) return num(lv(a) - lv(b));
    return num(big(a).subtract(big(b)));
  }

  public static Value NMul(Value a, Value b) {
    if (small(a) && small(b)) return num(lv(a) * lv(b));
    return num(big(a).multiply(big(b)));
  }

  public static Value NNeg(Value a) {
    if (small(a)) return num(-lv(a));
    return num(big(a).negate());
  }

  public static Value NAbs(Value a) {
    if (small(a)) return num(Math.abs(lv(a)));
    return num(big(a).abs());
  }

  public static Value NSgn(Value a) {
    if (small(a)) return IntValue.gen(Long.signum(lv(a)));
    return IntValue.gen(big(a).signum());
  }

  private static int cmp(Value a, Value b) {
    if (small(a) && small(b)) return Long.compare(lv(a), lv(b));
    return big(a).compareTo(big(b));
  }

  public static Value NLt(Value a, Value b) { return bool(cmp(a, b) < 0); }
  public static Value NLe(Value a, Value b) { return bool(cmp(a, b) <= 0); }
  public static Value NEq(Value a, Value b) { return bool(cmp(a, b) == 0); }

  public static Value NIn(Value a, Value lo, Value hi) {
    return bool(cmp(lo, a) <= 0 && cmp(a, hi) <= 0);
  }

  /** C++ integer division: rounds toward zero. */
  public static Value NQuot(Value a, Value b) {
    if (small(a) && small(b)) return num(lv(a) / lv(b));
    return num(big(a).divide(big(b)));
  }

  /** C++ remainder: has the sign of the dividend. */
  public static Value NRem(Value a, Value b) {
    if (small(a) && small(b)) return num(lv(a) % lv(b));
    return num(big(a).remainder(big(b)));
  }

  public static Value NFloorDiv(Value a, Value b) {
    if (small(a) && small(b)) return num(Math.floorDiv(lv(a), lv(b)));
    BigInteger[] qr = big(a).divideAndRemainder(big(b));
    if (qr[1].signum() != 0 && (qr[1].signum() != big(b).signum()))
      return num(qr[0].subtract(BigInteger.ONE));
    return num(qr[0]);
  }

  public static Value NGcd(Value a, Value b) { return num(big(a).gcd(big(b))); }

  public static Value NPow(Value a, Value e) {
    return num(big(a).pow(((IntValue) e).val));
  }
}
