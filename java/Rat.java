import java.math.BigInteger;
import tlc2.value.impl.*;

/** Overrides of the arithmetic operators of spec/Rat.tla (same values, BigInteger inside). */
public class Rat {
  static final BigInteger BASE = BigInteger.valueOf(10000);
  static BigInteger nat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    BigInteger r = BigInteger.ZERO;
    for (int i = t.elems.length - 1; i >= 0; i--)
      r = r.multiply(BASE).add(BigInteger.valueOf(((IntValue) t.elems[i]).val));
    return r;
  }
  static TupleValue lim(BigInteger b) {
    if (b.bitLength() < 63) {
      long x = b.longValue(); int n = 0; for (long y = x; y > 0; y /= 10000) n++;
      Value[] e = new Value[n];
      for (int i = 0; i < n; i++) { e[i] = IntValue.gen((int) (x % 10000)); x /= 10000; }
      return new TupleValue(e);
    }
    String s = b.toString();
    int n = (s.length() + 3) / 4;
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) {
      int hi = s.length() - 4 * i, lo = Math.max(0, hi - 4);
      e[i] = IntValue.gen(Integer.parseInt(s.substring(lo, hi)));
    }
    return new TupleValue(e);
  }
  static BigInteger[] rat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    BigInteger n = nat(t.elems[1]), d = nat(t.elems[2]);
    return new BigInteger[] { ((IntValue) t.elems[0]).val < 0 ? n.negate() : n, d };
  }
  static Value val(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    int s = n.signum();
    if (s == 0) d = BigInteger.ONE;
    else { BigInteger g = n.gcd(d); if (g.bitLength() != 1) { n = n.divide(g); d = d.divide(g); } }
    return new TupleValue(new Value[] { IntValue.gen(s), lim(n.abs()), lim(d) });
  }
  public static Value NAdd(Value a, Value b) { return lim(nat(a).add(nat(b))); }
  public static Value NSub(Value a, Value b) { return lim(nat(a).subtract(nat(b))); }
  public static Value NMul(Value a, Value b) { return lim(nat(a).multiply(nat(b))); }
  public static Value NCmp(Value a, Value b) { return IntValue.gen(nat(a).compareTo(nat(b))); }
  public static Value NDivMod(Value a, Value b) {
    BigInteger[] q = nat(a).divideAndRemainder(nat(b));
    return new TupleValue(new Value[] { lim(q[0]), lim(q[1]) });
  }
  public static Value NGcd(Value a, Value b) { return lim(nat(a).gcd(nat(b))); }
  public static Value RAdd(Value a, Value b) {
    BigInteger[] x = rat(a), y = rat(b);
    return val(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RSub(Value a, Value b) {
    BigInteger[] x = rat(a), y = rat(b);
    return val(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RMul(Value a, Value b) {
    BigInteger[] x = rat(a), y = rat(b);
    return val(x[0].multiply(y[0]), x[1].multiply(y[1]));
  }
  public static Value RDiv(Value a, Value b) {
    BigInteger[] x = rat(a), y = rat(b);
    return val(x[0].multiply(y[1]), x[1].multiply(y[0]));
  }
  public static Value RCmp(Value a, Value b) {
    BigInteger[] x = rat(a), y = rat(b);
    return IntValue.gen(x[0].multiply(y[1]).compareTo(y[0].multiply(x[1])));
  }
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (Value v : t.elems) {
      BigInteger[] x = rat(v);
      if (x[0].signum() == 0) continue;
      if (x[1].equals(d)) n = n.add(x[0]);
      else { BigInteger g = d.gcd(x[1]); BigInteger f = x[1].divide(g);
             n = n.multiply(f).add(x[0].multiply(d.divide(g))); d = d.multiply(f); }
    }
    return val(n, d);
  }
  public static Value RDot(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (int i = 0; i < t.elems.length; i++) {
      BigInteger[] x = rat(t.elems[i]);
      if (x[0].signum() == 0) continue;
      BigInteger[] y = rat(w.elems[i]);
      if (y[0].signum() == 0) continue;
      BigInteger pn = x[0].multiply(y[0]), pd = x[1].multiply(y[1]);
      if (pd.equals(d)) n = n.add(pn);
      else { BigInteger g = d.gcd(pd); BigInteger f = pd.divide(g);
             n = n.multiply(f).add(pn.multiply(d.divide(g))); d = d.multiply(f); }
    }
    return val(n, d);
  }
  public static Value RTrunc(Value a, Value k) {
    BigInteger[] x = rat(a);
    BigInteger sc = BASE.pow(((IntValue) k).val);
    return val(x[0].multiply(sc).divide(x[1]), sc);
  }
}
